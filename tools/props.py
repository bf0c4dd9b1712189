TECH = "bounded symbolic execution of the go/ssa form of the real code, SMT (z3) verdict per assertion and branch, counterexamples replayed natively"
NOTE = ("Every value within the stated bounds is decided by the solver; nothing is claimed beyond them. "
        "Trusted: the engine's semantics of go/ssa (validated natively on sampled paths at every run), the Go runtime that evaluates unicode tables, "
        "math and formatting, z3, and where 'trie: model' is reported the contract of the cedar trie.")

P = []

def prop(id, title, st, q, why, files, mech, obs, note, over=None):
    d = dict(id=id, title=title, st=st, q=q, why=why, files=files, mech=mech, obs=obs, note=note)
    if over:
        d["over"] = over
    P.append(d)

prop("C01", "Segments tile the input bytes, in normal and search mode",
     "Segmenting a byte string, in normal and in search mode and for any dictionary and any splitting options (also ones changed after the words were added), gives segments whose byte ranges start at 0, follow one another without gap or overlap and end at the length of the input. "
     "The text of each segment is the input between its start and its end, but for ASCII letters that ToLower turns to lower case. Empty input gives no segments.",
     "every byte string (also invalid UTF-8), every dictionary, every option, both modes",
     "The tests segment a handful of sentences with one dictionary; offsets can go wrong for one particular mix of multi-byte runes, case, invalid bytes and overlapping words.",
     ["segmenter.go", "gse.go", "token.go", "seg_utils.go"],
     [("shortest path, then offsets by summing token bytes", "segmenter.go: segmentWords"), ("division into units", "segmenter.go: SplitTextToWords")],
     ["Segmenter.Segment", "Segmenter.ModeSegment", "Segment.Start/End/Token.Text"],
     "Texts of up to 5 free bytes, up to 5 free runes, and words of up to 3 free runes with texts of up to 5; all option combinations; long texts and words with a free part.",
     ["inputs", "configurations"])
prop("C02", "Every segment is a dictionary word or a single unit",
     "With the splitting options the words were added with, each segment is either a word of the dictionary, carrying exactly that word's frequency and part of speech, or a single unit (a rune, or a run of Latin letters and digits) that is not itself in the dictionary, which carries the unknown-word part of speech \"x\".",
     "every dictionary (words, frequencies, parts of speech) and every text",
     "The tests look at a few sentences; a lookup that returns a neighbouring, removed or merely prefixing word's data shows only for particular sets of words that share prefixes.",
     ["segmenter.go", "dictionary.go"],
     [("prefix walk of the trie collecting tokens", "dictionary.go: LookupTokens"), ("pseudo token for an unknown unit", "segmenter.go: segmentWords")],
     ["Segment.Token().Text/Freq/Pos"],
     "All subsets of a 5-word universe with frequencies from menus and any two words of up to 3 free runes, texts of up to 5 free runes.",
     ["inputs", "configurations"])
prop("C03", "The segmentation is the most probable one",
     "With the splitting options the words were added with, among all ways to divide the text into dictionary words and single unknown units, the one returned has the least total distance, where a dictionary word's distance is the negative base-2 logarithm of its share of the total frequency and an unknown unit costs 32. "
     "The same holds in search mode, except that a dictionary word that is the whole text is not a candidate there.",
     "every dictionary with every frequency, every text, both modes",
     "The tests compare single results; that no other division is cheaper is a statement about all divisions of all texts, and a slip in the dynamic program shows only for particular overlaps.",
     ["segmenter.go", "dictionary.go", "dict_util.go"],
     [("dynamic program over jumpers", "segmenter.go: segmentWords, updateJumper"), ("distance of a word", "dict_util.go: CalcToken")],
     ["Segmenter.Segment", "Segmenter.ModeSegment"],
     "All subsets of a 6-word universe (frequencies from menus) and any two or three free words, texts of up to 5 free runes; optimality against an independent dynamic program, within float32 tolerance.",
     ["inputs", "configurations"])
prop("C04", "Units of a text: runs of letters and digits, and single runes",
     "Splitting a text into units loses and reorders nothing: the units, joined, are the text (ASCII letters in lower case when ToLower is set, in runs). "
     "Without options each maximal run of letters and numbers encoded in at most two bytes is one unit and every other rune (or invalid byte) is a unit of its own; Num and Alpha make numbers and letters units of their own, and AlphaNum makes every rune one.",
     "every byte string and every combination of the options ToLower, AlphaNum, Alpha, Num",
     "The tests split a few phrases with default options; the interesting cases are boundaries between runs, at either end of the text, under option combinations.",
     ["segmenter.go"],
     [("one pass with a run state", "segmenter.go: SplitTextToWords")],
     ["SplitWords", "Segmenter.SplitTextToWords"],
     "Texts of up to 5 free bytes, 5 free runes with all option combinations, and 8 printable ASCII characters.",
     ["inputs", "configurations"])
prop("C05", "Search mode expands each word by its sub-words, in order, on every route",
     "In search mode the list of words has, for every segment in text order, the segment's word preceded by its recorded sub-words, from the first one on that can itself be divided further or begins with kana, each expanded in the same way; nothing is dropped, repeated or reordered. "
     "In normal mode the list has just the segments. The slice, the string (word/pos and a space each) and the parts of speech, asked for of the segments or of the segmenter, agree, as do Cut and CutSearch without a loaded model.",
     "every dictionary of nested words, every text, both modes",
     "Nested words interact: tests cover one or two nestings, the output depends on how sub-words themselves divide.",
     ["seg_utils.go", "gse.go"],
     [("recursive expansion of sub-segments", "seg_utils.go: tokenToSlice, tokenToBytes, tokenToString"), ("entry points", "gse.go: Slice, String, SegPos, CutSearch")],
     ["ToSlice", "ToString", "ToPos", "Segmenter.Slice", "Segmenter.String", "Segmenter.Pos", "Segmenter.Cut", "Segmenter.CutSearch"],
     "All subsets of a universe of nested words with menu frequencies, texts of up to 6 free runes; kana words; any word of four runes of three with any of its parts.",
     ["inputs", "configurations"])
prop("C06", "A word's sub-segments are its best division into smaller words",
     "The sub-segments recorded for a dictionary word divide the word exactly, each being a dictionary word shorter than the word or a single unit, and no such division is more probable.",
     "every dictionary in which words contain words",
     "The tests look at one word; whether the division is right depends on all other words and frequencies.",
     ["dict_util.go", "segmenter.go", "token.go"],
     [("search-mode segmentation of every word", "dict_util.go: CalcToken")],
     ["Token.Segments (through Segmenter.Dictionary().Tokens)", "Segment.Token().Segments"],
     "Any word of 2 to 5 free runes over two free shorter words, and all subsets of a 7-word universe.",
     ["configurations", "inputs"])
prop("C07", "Cut without the HMM returns the most probable division",
     "Cutting without the hidden Markov model returns words that join to the text (in lower case when ToLower is set), each a dictionary word, a single rune, or a run of letters and digits. "
     "On text made of dictionary runes no other division into dictionary words and single runes has a higher sum of log frequencies.",
     "every dictionary, every text of valid UTF-8",
     "Optimality and losslessness quantify over all texts and dictionaries; the tests check several sentences against fixed lists.",
     ["dag.go", "gse.go"],
     [("DAG of words and backward dynamic program", "dag.go: getDag, calc, cutDAGNoHMM")],
     ["Segmenter.Cut(text, false)"],
     "All subsets of a 6-word universe with menu frequencies, any two free words, texts of up to 5 free runes; any three runes at all.",
     ["inputs", "configurations"])
prop("C08", "Cut with the HMM loses nothing and only regroups single runes",
     "Cutting with the hidden Markov model returns words that join to the text (in lower case when ToLower is set). "
     "Each word of several runes that the most probable division finds in the dictionary is kept whole, and only runs of the division's single runes are handed to the model, unless the run is itself a dictionary word.",
     "every dictionary, every text of valid UTF-8, a loaded model",
     "The buffer of pending runes is flushed in several places; which one runs depends on the text and the dictionary in ways that the sampled sentences do not cover.",
     ["dag.go", "hmm/hmm_seg.go", "gse.go"],
     [("pending runes flushed to the model", "dag.go: cutDAG"), ("model", "hmm/viterbi.go")],
     ["Segmenter.Cut(text)", "Segmenter.Cut(text, true)"],
     "All subsets of a small universe, any free word, texts of up to 5 free runes, mixed letters, digits and other runes, any three runes.",
     ["inputs", "configurations"])
prop("C09", "CutAll lists every dictionary word in the text",
     "Full-mode cutting lists every occurrence of every dictionary word in the text of two or more units, ordered by start and then by end. "
     "A rune at which no such word starts is listed, too, unless it lies before the end of the word listed last, so that the result covers the text.",
     "every dictionary, every text",
     "A missed or doubled occurrence shows only for particular overlaps of words; the tests have one sentence.",
     ["dag.go", "gse.go"],
     [("all edges of the DAG", "dag.go: cutAll, getDag")],
     ["Segmenter.CutAll"],
     "All subsets of a 6-word universe, any three free words, texts of up to 6 runes; mixed letters and digits.",
     ["inputs", "configurations"])
prop("C10", "CutSearch adds the two- and three-rune words inside each word",
     "Search-engine cutting returns the words of the ordinary cut in order, each preceded by the dictionary words of two runes and then of three runes inside it (when it is longer than those), in order of position; nothing else is added and nothing lost.",
     "every dictionary, every text, with and without the model",
     "Which sub-words are listed depends on the dictionary; off-by-one windows at the end of a word are only seen for words of particular lengths.",
     ["dag.go", "gse.go"],
     [("windows of two and three runes", "dag.go: cutForSearch")],
     ["Segmenter.CutSearch"],
     "All subsets of sub-words of a long word, any free short word inside any longer one, texts of up to 6 runes.",
     ["inputs", "configurations"])
prop("C11", "The HMM cutter loses nothing and divides only Han runs",
     "The model's cutter returns non-empty words that join to the text, for any text of valid UTF-8 and any regular expressions of the caller, and it always ends. "
     "Without regular expressions of the caller a maximal run of Han runes is divided on its own, and a number (with decimals), a run of letters and digits, or a run of anything else is one word. "
     "With them the runs of the first one take the place of the numbers, letters and digits, and those of the second one, if there is one, of the Han runs.",
     "every text, every regular expression of the caller",
     "The tests cut three sentences; losses happen at boundaries between scripts and for expressions that match nothing or the empty string.",
     ["hmm/hmm_seg.go"],
     [("scan by regular expressions", "hmm/hmm_seg.go: Cut, cutHan, internalCut")],
     ["hmm.Cut"],
     "Texts of up to 4 free bytes or 5 runes of three scripts, 5 expressions in all pairs over texts of up to 4 runes, pairs of classes over texts of up to 4; texts of many runs.",
     ["inputs", "configurations"])
prop("C12", "Viterbi returns the most probable legal state sequence",
     "For a non-empty sequence of runes the decoder returns one state per rune, following only the model's allowed transitions and ending in a state that ends a word, together with that sequence's log probability, and no other such sequence is more probable. "
     "The words of a Han text are those that the states describe: a word runs from its begin state to its end state, or is a single. The model is the one loaded last: the four tables given, or the default one.",
     "every model of emission probabilities, every sequence of runes",
     "One fixed sentence and the built-in model are tested; optimality quantifies over all models and texts.",
     ["hmm/viterbi.go", "hmm/prob_trans.go", "hmm/hmm_seg.go"],
     [("dynamic program over four states", "hmm/viterbi.go: Viterbi")],
     ["hmm.Viterbi", "hmm.Cut"],
     "Sequences of up to 4 runes: two runes with emissions from menus (all models of the menu), any missing emissions, or any runes with a fixed model; runs of 70 to 5000 runes with a free part; an independent dynamic program as the oracle.",
     ["inputs", "configurations"])

prop("C13", "The dictionary behaves as a map from words to their data",
     "After any sequence of adding, removing and re-adding words, a word that was added and not removed since is found with exactly the frequency and part of speech it was added with (adding a word that is there changes nothing, ReAddToken replaces its data), and a text that is no such word is never reported with a frequency, a part of speech or a value. "
     "Removing or re-adding fails exactly for a word that is not there and leaves every other word alone; an empty text or one with a NUL byte cannot be a word. Segmentation follows: a removed word is no longer a segment.",
     "every sequence of operations, every set of words, also words that begin with one another",
     "Faults show after particular sequences over words that share prefixes; the tests have one sequence.",
     ["dictionary.go", "dict_util.go"],
     [("trie value as the index of the token", "dictionary.go: AddToken, RemoveToken, Find, Value"), ("re-adding", "dict_util.go: ReAddToken")],
     ["Segmenter.AddToken", "Segmenter.RemoveToken", "Segmenter.ReAddToken", "Segmenter.Find", "Segmenter.Value", "Segmenter.Segment"],
     "Histories of up to 3-4 operations over two free words or four nested ones, lookups of any text of up to 3 runes, 40-64 words with a mixed history; with the contract of the trie, and in one harness with the trie library's real code.",
     ["histories", "inputs"])
prop("C14", "The dictionary's totals are those of its words",
     "After any additions the number of words is that of the different words added, the total frequency is the sum of their frequencies and the maximum length that of the longest word in units. "
     "Words added one at a time, each computed at once (AddTokenForce), give the same words, frequencies, sub-segments and segmentations as the same words added together and computed once.",
     "every sequence of additions, repeated words included",
     "Totals enter every probability; a repeated word or an insertion order that miscounts is not seen by tests that compare segmentations of one dictionary.",
     ["dictionary.go", "dict_util.go"],
     [("bookkeeping on adding", "dictionary.go: AddToken"), ("calculation of distances and sub-segments", "dict_util.go: CalcToken")],
     ["Dictionary.NumTokens", "Dictionary.TotalFreq", "Dictionary.MaxTokenLen", "Segmenter.AddTokenForce", "Segmenter.CalcToken"],
     "Sequences of up to 4 additions out of five words, one of them free; three words in two ways, texts of up to 4 free runes, both modes; words of 3-4 runes with a free part in two ways; 70-300 words.",
     ["histories", "inputs"])
prop("C15", "Loading a dictionary adds exactly the words of its rows",
     "Loading rows gives one word per row that has a text and a frequency of at least the minimum (not zero), in order, with the row's frequency and part of speech; of rows with the same text the first counts, a row without a frequency counts only when LoadNoFreq is set, with the frequency TextFreq; a word of one rune has frequency 2. "
     "The same rows given as a file, several files, a reader, a string, an embedded string or maps, with white space or a separator, in either line ending, with or without a newline at the end, give the same dictionary. A file that is missing or a reader that fails at any point is an error, loading ends, and what was read before it stays.",
     "every list of rows, every option, every point at which reading fails",
     "The tests load fixed files; the fault points, ends of files and incomplete rows are many and each route has its own parser.",
     ["dict_util.go", "dict_1.16.go", "dict_embed.go"],
     [("rows from a reader", "dict_util.go: Reader, Size, ReadN"), ("rows from strings and maps", "dict_1.16.go: LoadDictStr; dict_util.go: LoadDictMap"), ("lists of files", "dict_util.go: LoadDict, Read")],
     ["Segmenter.LoadDict", "Segmenter.LoadDictStr", "Segmenter.LoadDictEmbed", "Segmenter.LoadDictMap", "Segmenter.Reader", "Segmenter.Dictionary"],
     "Up to three rows with a free word, all numbers of fields and a menu of frequencies, both separators; 60-200 rows, some long; failures at every byte. fmt.Fscanln is a Go model of it (checked natively on samples).",
     ["inputs", "fault_sequences", "configurations"])
prop("C16", "A list of dictionary names gives each name's files in order",
     "A list of dictionary names separated by commas (and spaces) gives, in the order of the list, for each name the file or files of that language below the given directory, for any other name the name itself as a path, and nothing for a language without a file of its own.",
     "every list of names",
     "The tests have a few lists; leftovers of one name in the next depend on the order and mix of names.",
     ["dict_util.go"],
     [("names to paths", "dict_util.go: DictPaths")],
     ["DictPaths"],
     "Lists of up to 3 names out of ten, long lists and any names of two letters, any single name of up to 5 bytes.",
     ["inputs"])
prop("C17", "Stop words and the word filters built on them",
     "A word is a stop word exactly if it was added and not removed or emptied since. Stop drops stop words and empty words; Trim drops symbols, punctuation and spaces from every word and then empty and (unless NotStop) stop words; TrimSymbol only drops such runes; TrimPunct drops words that are only punctuation and spaces; order is kept and the argument left alone. "
     "CutStop and CutTrim give what the filter gives of Cut, with and without the model.",
     "every history of stop words, every list of words, every text",
     "The tests filter one sentence; which runes are symbols is a matter of all of Unicode and the interplay with stop words of the order of steps.",
     ["stop.go", "trim.go"],
     [("stop word map", "stop.go: AddStop, RemoveStop, EmptyStop, IsStop"), ("filters", "trim.go: Stop, Trim, TrimSymbol, TrimPunct, CutStop, CutTrim")],
     ["Segmenter.IsStop", "Segmenter.Stop", "Segmenter.Trim", "Segmenter.TrimSymbol", "Segmenter.TrimPunct", "Segmenter.CutStop", "Segmenter.CutTrim"],
     "Histories of 3 operations, lists of up to 2 words of free runes, longer ones of chosen words, words of up to 4-5 marks and letters, texts of up to 3 runes of eight.",
     ["histories", "inputs"])
prop("C18", "The text filters keep exactly the runes they should",
     "FilterSymbol removes exactly symbols, spaces and punctuation, FilterEmoji exactly the runes of four bytes, FilterLang exactly what is neither a letter nor of the script, Range and RangeText list every rune, SplitNum divides a text into its maximal runs of digits and of anything else, losing nothing. "
     "FilterHtml removes tags, from '<' to the next '>', and nothing outside them. CutTrimHtml, CutUrl and their string forms are the trimmed cut of the filtered text.",
     "every text",
     "They are statements about every rune of Unicode; the tests have a handful.",
     ["trim.go", "hmm/hmm_seg.go", "gse.go"],
     [("filters", "trim.go: FilterSymbol, FilterEmoji, FilterLang, FilterHtml, SplitNum, Range")],
     ["FilterSymbol", "FilterEmoji", "FilterLang", "FilterHtml", "Range", "RangeText", "SplitNum", "SplitNums", "Segmenter.CutTrimHtml", "Segmenter.CutUrl"],
     "Texts of up to 3 free runes, 4 runes mixed for numbers, 5 of six for tags, any 3 bytes; long texts with a free part.",
     ["inputs"])

prop("C19", "Words are placed in their text where they occur",
     "FindAllOccs lists, for each of several distinct strings, its occurrences in the text that do not overlap, from the last one on, and only strings that occur. "
     "Analyze gives one token per word, in order, with its index and the frequency and part of speech of the dictionary; without the text each word starts where the one before ends (in bytes, or in runes if asked for); with the text, lower-cased if ToLower is set, the text from the start to the end of a token is the word, and the k-th repetition of a word has its k-th occurrence from the end.",
     "every text and every list of words, the words of any cutter included",
     "Offsets go wrong for repeated and overlapping words, multi-byte runes and case; the tests place the words of a few sentences.",
     ["dag.go"],
     [("occurrences", "dag.go: FindAllOccs"), ("tokens with positions", "dag.go: Analyze")],
     ["FindAllOccs", "Segmenter.Analyze"],
     "Any 5-6 bytes with two strings of up to 2 bytes; lists of up to 4 words, texts of up to 3-4 runes of two scripts.",
     ["inputs"])
prop("C20", "Texts, tokens and lists convert to strings without loss",
     "Join gives the parts of a text one after another; the text, frequency and part of speech of a token are those it was made of, and Equals holds for its own text and no other. "
     "CutStr and PosStr join the words (with their parts of speech unless SkipPos is set) with a space or the given separator.",
     "every list of parts, token and separator",
     "Faults appear only for empty, long or particular parts; the tests convert single sentences.",
     ["seg_utils.go", "token.go", "gse.go"],
     [("conversions", "seg_utils.go: Join; token.go: Text, Equals; gse.go: CutStr, PosStr")],
     ["Join", "Token.Text", "Token.Equals", "Segmenter.ToToken", "Segmenter.CutStr", "Segmenter.PosStr"],
     "Up to 4-6 parts of up to 2 bytes, up to 9-13 parts of one byte, tokens of up to 4 bytes or of units that begin with one another.",
     ["inputs"])
prop("C21", "The part-of-speech segmenter loses nothing and keeps the dictionary's tags",
     "The words that pos.Segmenter.Cut gives make the text. Without the model each is a word of the dictionary with its part of speech, letters and digits with 'eng', or a single rune with 'x'; with the model words of several runes stay as they are and only runs of single runes that are no word are divided anew. "
     "The same text gives the same words and parts of speech every time, whatever the order in which maps are visited.",
     "every text, every dictionary, every order of maps",
     "The tests cut a few sentences; text may get lost at the borders between scripts, and results that depend on map order change from run to run.",
     ["hmm/pos/pos_seg.go", "hmm/pos/viterbi.go"],
     [("cutting by script and dictionary", "hmm/pos/pos_seg.go: Cut, cutDAG, cutDAGNoHMM"), ("tagging runes", "hmm/pos/viterbi.go: viterbi")],
     ["pos.Segmenter.Cut"],
     "Texts of up to 3-4 runes with the real model tables, up to four words.",
     ["inputs", "configurations"])
prop("C22", "Dividing a text by an expression keeps every part",
     "RegexpSplit gives what lies between the matches and, for an expression with a group, the text of the group between those parts; for a group around the whole expression the parts in order make the text. A limit n > 0 gives, without a group, at most n parts with the rest of the text in the n-th; with a group nothing is divided once there are n - 1 parts; 0 gives nothing and a negative one divides at every match.",
     "every text, every limit",
     "Empty matches, matches at the ends and limits each need their own case; the tests have four inputs.",
     ["hmm/util/util.go"],
     [("division", "hmm/util/util.go: RegexpSplit")],
     ["util.RegexpSplit"],
     "Texts of up to 5-7 runes of six, or of any bytes, for 20 expressions and limits -1 to 4; texts with many matches.",
     ["inputs"])
prop("C23", "Tags are the heaviest words of a text by tf-idf",
     "ExtractTags gives the k words of the text (cut with the model) with the greatest weight, greatest first, equal ones by descending text: of the words of at least two runes that are no stop words, each once, the weight is its share among them times its inverse document frequency, or the (upper) median one of the table if it has none. "
     "The result does not depend on the order in which maps are visited, nor on the calls before.",
     "every text, every table of frequencies, every number of tags, every order of maps",
     "Ties, repeated words, the median and the cut at k interact; the tests extract the tags of a few fixed texts.",
     ["hmm/idf/tag_extracker.go", "hmm/idf/idf.go", "hmm/segment/segment.go"],
     [("weights", "hmm/idf/tag_extracker.go: ExtractTags"), ("median", "hmm/idf/idf.go: AddToken"), ("order", "hmm/segment/segment.go: Less")],
     ["TagExtracter.ExtractTags", "Idf.AddToken", "Idf.Freq"],
     "Texts of up to 4-5 runes, tables of up to three entries with frequencies from menus, k up to 3; one long text of many words.",
     ["inputs", "configurations"])
prop("C24", "Text ranks are those of the graph of words close to one another",
     "TextRank links words of the given parts of speech that are at most four words apart, by the number of times they are, runs ten rounds of ranking with damping 0.85 in the order of the words, relates all ranks to the greatest, which becomes 1, and gives the k words with the greatest rank, greatest first, equal ones by descending text, or all for k = 0. "
     "The result does not depend on the order in which maps are visited, nor on the calls before.",
     "every text of words, every set of parts of speech, every number of words, every order of maps",
     "A window off by one, a missing direction or a sum in map order change ranks slightly; the tests look at the first words of one text.",
     ["hmm/idf/textrank.go", "hmm/segment/segment.go"],
     [("graph", "hmm/idf/textrank.go: TextRankWithPOS"), ("ranking", "hmm/idf/textrank.go: rank")],
     ["TextRanker.TextRank", "TextRanker.TextRankWithPOS"],
     "Texts of up to 5-7 words of four, of 9 words of two for the window; order of maps for up to four words; a text of dozens of words.",
     ["inputs", "configurations"])
prop("C25", "A segmenter can be used by many readers at once",
     "Once the dictionary is loaded, segmenting, cutting, looking up, analysing, tagging parts of speech, ranking keywords and filtering write nothing that another goroutine could see: not the segmenter, tagger or extracter, their dictionaries, model and stop words, nor package variables, without synchronisation. "
     "The texts and lists given to them are left unchanged.",
     "every text and every operation, hence every interleaving of readers",
     "A data race shows only under particular schedules; a call that leaves the shared state alone on every path cannot race on any schedule.",
     ["segmenter.go", "gse.go", "dag.go", "trim.go", "stop.go", "hmm/hmm_seg.go", "hmm/viterbi.go", "hmm/pos/pos_seg.go", "hmm/idf/idf.go", "hmm/idf/tag_extracker.go", "hmm/idf/textrank.go"],
     [("reading the dictionary", "segmenter.go: segmentWords"), ("cutters", "dag.go"), ("filters", "trim.go")],
     ["Segmenter.Segment", "Segmenter.ModeSegment", "Segmenter.Cut", "Segmenter.CutAll", "Segmenter.CutSearch", "Segmenter.Analyze", "Segmenter.Trim", "Segmenter.Stop", "Segmenter.Find"],
     "Every store of every path is checked against the state shared; texts of up to 3-4 runes of six, or any 3 bytes; 23 reading calls and filters. The trie is used by its contract here.",
     ["schedules", "inputs"])
prop("C26", "No text and no dictionary makes gse panic or hang",
     "Any bytes as a text, valid UTF-8 or not, and the empty one, go through segmenting, cutting, filtering and analysing with every option, with any dictionary, the empty one included, without a panic or an endless loop; without lower-casing nothing of the text is lost in segmenting. "
     "Any bytes can be loaded as a dictionary: what is loaded are words that can be found, none empty, none rarer than the minimum, and the total is theirs.",
     "every sequence of bytes",
     "Crashes need particular malformed inputs; the tests have well-formed ones.",
     ["segmenter.go", "dag.go", "dict_util.go", "dict_1.16.go", "trim.go"],
     [("division into units", "segmenter.go: SplitWords"), ("loading", "dict_util.go: Reader; dict_1.16.go: LoadDictStr")],
     ["Segmenter.Segment", "Segmenter.Cut", "Segmenter.CutAll", "Segmenter.CutSearch", "Segmenter.Reader", "Segmenter.LoadDictStr"],
     "Any 3 bytes (4 thorough) as a text; any 2 to 3 bytes with four endings as a dictionary.",
     ["inputs", "configurations"])
prop("C27", "Case matters exactly when ToLower is off",
     "With ToLower set, which is the default, and unless an option makes letters units of their own, a text gives the same words, segments and offsets as the same text with its ASCII letters in lower case, and a dictionary the same as with its words in any case; the words that Cut, CutAll and CutSearch give are those of the lower-cased text, letters beyond ASCII included, and those of Cut make it. "
     "With ToLower off they make the text itself, and only words in their own case are in the dictionary.",
     "every text, every dictionary, every mix of cases",
     "Lower-casing happens in several places that must agree; the tests have a few words in upper case.",
     ["segmenter.go", "dag.go", "dictionary.go", "dict_util.go"],
     [("lower-casing units", "segmenter.go: SplitWords, toLower"), ("lower-casing texts", "dag.go")],
     ["ToLower", "Segmenter.Cut", "Segmenter.CutAll", "Segmenter.CutSearch", "Segmenter.ModeSegment", "Segmenter.Value"],
     "Texts of up to 3-4 runes of six, dictionary words with two free letters, up to 3 runes up to U+024F.",
     ["inputs", "configurations"])
prop("C28", "Segmenters and calls do not influence one another",
     "Loading, changing and using one segmenter leaves the words, parts of speech and stop words that another one gives unchanged, the model aside, which is one for all. "
     "What a call gives depends on the text and on the dictionary, options, stop words and model as they are then, not on the reading calls made before on this segmenter or on another one: it is what it gives in a process in which there were none.",
     "every history of operations on another segmenter and of earlier calls, every text",
     "Leaks through package variables or buffers kept between calls show only in a second segmenter or call with a particular text.",
     ["segmenter.go", "dict_util.go", "stop.go", "dag.go", "hmm/hmm_seg.go"],
     [("state of a segmenter", "segmenter.go: Segmenter"), ("emptying", "dict_util.go: Empty"), ("stop words", "stop.go")],
     ["NewDict", "Segmenter.Cut", "Segmenter.CutAll", "Segmenter.Pos", "Segmenter.IsStop", "Segmenter.Empty"],
     "Four histories with a free word on the second segmenter, texts of up to 3 runes; any call of five before; 24 reading calls, after all the others and after a change of dictionary or options, against a process of its own, texts of up to 2 runes of eight.",
     ["histories", "inputs"])
prop("C29", "Loading stop words adds exactly the lines",
     "LoadStop makes each non-empty line of the files listed, in either line ending and with or without a last one, a stop word, besides those there already, and nothing else; LoadStopStr and LoadStopEmbed do it for the lines of a string without the white space around them. "
     "A file that is missing or a line that cannot be read is an error, and what was read before it stays.",
     "every list of lines, every division into files",
     "Line endings, empty lines, very long lines and missing files are many combinations; the tests load one file.",
     ["stop.go", "dict_1.16.go"],
     [("files", "stop.go: LoadStop"), ("strings", "dict_1.16.go: LoadStopStr, LoadStopEmbed")],
     ["Segmenter.LoadStop", "Segmenter.LoadStopStr", "Segmenter.LoadStopEmbed", "Segmenter.IsStop"],
     "Up to three lines with up to two free runes; lines of 65534 to 70000 bytes; more than a hundred lines.",
     ["inputs", "fault_sequences"])
prop("C30", "The filters of words with parts of speech drop exactly what they should",
     "TrimPos drops the words that are stop words or nothing but symbols, punctuation and spaces, TrimPosPunct stop words and words that begin with punctuation or a space, TrimWithPos the words of the given parts of speech; the others stay in order as they are, and the argument is left alone. PosTrim, PosTrimArr and PosTrimStr give the words of Pos filtered by TrimWithPos and TrimPos. "
     "The filters of the pos package (Trim, TrimPunct, TrimWithPos) do the same without stop words in TrimPunct.",
     "every list of words with parts of speech, every set of parts of speech, every set of stop words, every text",
     "The order of filters and which runes count is a matter of combinations; the tests filter one sentence.",
     ["trim.go", "hmm/pos/pos_seg.go"],
     [("filters", "trim.go: TrimPos, TrimPosPunct, TrimWithPos, PosTrim"), ("filters of package pos", "hmm/pos/pos_seg.go: Trim, TrimPunct, TrimWithPos")],
     ["Segmenter.TrimPos", "Segmenter.TrimPosPunct", "Segmenter.TrimWithPos", "Segmenter.PosTrim", "Segmenter.PosTrimArr", "Segmenter.PosTrimStr", "pos.Segmenter.Trim"],
     "Lists of up to 2-3 words of up to 2 runes, any runes in one harness; texts of up to 3-4 runes of six.",
     ["inputs", "configurations"])
prop("C31", "A word with its suggested frequency is kept whole",
     "The frequency SuggestFreq gives for a word is at least 1 and at least that of the word now, and once the word is added with it (or re-added), Cut without the model gives the word as one piece of itself. "
     "For several words it is at most the frequency of the word they make together and, if that is less, the largest whole number that makes that word no more probable than its parts in order (an unknown part counting as one of frequency 1).",
     "every dictionary, every word",
     "Whether a frequency suffices depends on all ways to divide the word and on the totals, which the added word changes; the tests look at two words.",
     ["dag.go", "dict_util.go"],
     [("suggestion", "dag.go: SuggestFreq")],
     ["Segmenter.SuggestFreq", "Segmenter.AddToken", "Segmenter.ReAddToken", "Segmenter.Cut"],
     "Words of 2-3 free runes, up to six words with frequencies from menus up to 1000.",
     ["inputs", "histories"])
prop("C32", "The constructors and default dictionaries give what their arguments name",
     "NewEmbed and LoadDictEmbed load both Chinese embedded dictionaries when nothing is named, the one of the name zh, zh_s, zh_t or ja, a list that begins with zh, zh_s or zh_t as that one and the rows behind it (separated by a comma and a space), and take anything else as the rows themselves; LoadStopEmbed does it for the stop words. "
     "LoadDict and LoadStop without a name load the Chinese files of the data directory, with a name those of the name. 'alpha' as the second argument of New and NewEmbed, and 'en' of NewEmbed, makes letters and digits units of their own, and nothing else does.",
     "every content of the dictionaries, every argument",
     "The tests load one dictionary each way; which arguments stand for which dictionaries is a matter of all combinations.",
     ["gse.go", "dict_1.16.go", "dict_util.go", "stop.go"],
     [("constructors", "gse.go: New; dict_1.16.go: NewEmbed"), ("embedded dictionaries", "dict_1.16.go: LoadDictEmbed, LoadStopEmbed"), ("default files", "dict_util.go: LoadDict; stop.go: LoadStop")],
     ["New", "NewEmbed", "Segmenter.LoadDict", "Segmenter.LoadDictEmbed", "Segmenter.LoadStop", "Segmenter.LoadStopEmbed"],
     "Dictionaries of up to four rows with a free word in place of the embedded ones, names of five kinds with up to two strings of rows, a free second argument of two letters.",
     ["inputs", "configurations"])

prop("C33", "Loading adds to the dictionary that is there, and emptying starts anew",
     "LoadDict, LoadDictStr, LoadDictMap and LoadDictEmbed in any order and number, and AddToken between them, give the words of all of them, the first of equal words counting; a loading call on a segmenter without a dictionary makes one, and after Empty the dictionary has just the words loaded since. "
     "The order in which different words came, and the calls they came by, make no difference to segmentations, cuts, sub-words, number of words and total frequency.",
     "every sequence of loading calls, every dictionary, every text",
     "The tests load once and look; what a second call of another kind leaves of the first, and whether the order of words shows, are statements over all sequences.",
     ["dict_util.go", "dict_1.16.go", "dictionary.go"],
     [("loading", "dict_util.go: LoadDict, LoadDictStr, LoadDictMap, Empty, CalcToken; dict_1.16.go: LoadDictEmbed")],
     ["Segmenter.LoadDict", "Segmenter.LoadDictStr", "Segmenter.LoadDictMap", "Segmenter.LoadDictEmbed", "Segmenter.AddToken", "Segmenter.Empty", "Segmenter.String", "Segmenter.Cut"],
     "Three calls (four when thorough) of six kinds with rows of five, one word free; orders of up to four words, two frequencies and one word free; the scenes in opposite order.",
     ["histories", "inputs"])

NA = []
