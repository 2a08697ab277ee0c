// the stopwords of the tokenizer
pub const STOPS: &[&str] = &[
  "'t", "a", "a's", "able", "about", "above", "abroad", "according", "accordingly", "across",
  "actually", "adj", "after", "afterwards", "again", "against", "ago", "ahead", "ain't", "al",
  "all", "allow", "allows", "almost", "alone", "along", "alongside", "already", "also", "although",
  "always", "am", "amid", "amidst", "among", "amongst", "an", "and", "another", "any",
  "anybody", "anyhow", "anyone", "anything", "anyway", "anyways", "anywhere", "apart", "appear", "appreciate",
  "appropriate", "arbitrary", "are", "aren't", "around", "as", "aside", "ask", "asking", "associated",
  "at", "available", "away", "awfully", "backward", "backwards", "be", "became", "because", "become",
  "becomes", "becoming", "been", "before", "beforehand", "begin", "behind", "being", "believe", "below",
  "beside", "besides", "best", "better", "between", "beyond", "both", "brief", "but", "by",
  "c'mon", "c's", "call", "called", "came", "can", "can't", "cannot", "cant", "caption",
  "case", "cause", "causes", "certain", "certainly", "changes", "clearly", "co", "co.", "com",
  "come", "comes", "concerning", "consequently", "consider", "considering", "consist", "consisting", "contain", "containing",
  "contains", "corresponding", "could", "couldn't", "course", "currently", "dare", "daren't", "defined", "definitely",
  "denote", "denoted", "described", "despite", "did", "didn't", "different", "directly", "do", "does",
  "doesn", "doesn't", "doing", "don't", "done", "down", "downwards", "during", "each", "easy",
  "edu", "eg", "eight", "eighty", "either", "else", "elsewhere", "ending", "enough", "entirely",
  "entry", "especially", "et", "etc", "ever", "evermore", "every", "everybody", "everyone", "everything",
  "everywhere", "ex", "exactly", "example", "except", "express", "expressed", "fairly", "far", "farther",
  "few", "fewer", "followed", "following", "follows", "for", "forever", "former", "formerly", "forth",
  "forward", "found", "from", "further", "furthermore", "get", "gets", "getting", "give", "given",
  "gives", "goes", "going", "gone", "got", "gotten", "greetings", "had", "hadn't", "happens",
  "hardly", "has", "hasn't", "have", "haven't", "having", "he", "he'd", "he'll", "he's",
  "hello", "help", "hence", "her", "here", "here's", "hereafter", "hereby", "herein", "hereupon",
  "hers", "herself", "hi", "him", "himself", "his", "hither", "hopefully", "how", "howbeit",
  "however", "i", "i'd", "i'll", "i'm", "i've", "ie", "if", "ignored", "immediate",
  "in", "inasmuch", "inc", "inc.", "include", "includes", "indeed", "indicate", "indicated", "indicates",
  "inside", "insofar", "inspired", "instead", "into", "inward", "is", "isn", "isn't", "it",
  "it'd", "it'll", "it's", "its", "itself", "just", "keep", "keeps", "kept", "know",
  "known", "knows", "last", "lately", "later", "latter", "latterly", "least", "less", "lest",
  "let", "let's", "like", "liked", "likely", "likewise", "look", "looking", "looks", "ltd",
  "made", "mainly", "make", "makes", "many", "may", "maybe", "mayn't", "me", "meantime",
  "meanwhile", "merely", "might", "mightn't", "mine", "miss", "more", "moreover", "most", "mostly",
  "mr", "mrs", "much", "must", "mustn't", "my", "myself", "name", "namely", "nd",
  "near", "nearly", "necessary", "need", "needn't", "needs", "neither", "never", "neverf", "neverless",
  "nevertheless", "new", "next", "nine", "ninety", "no", "no-one", "nobody", "non", "none",
  "nonetheless", "noone", "nor", "normally", "not", "note", "nothing", "notion", "notwithstanding", "novel",
  "now", "nowhere", "obtain", "obtained", "obviously", "of", "off", "often", "oh", "ok",
  "okay", "old", "on", "once", "one", "one's", "ones", "only", "onto", "opposite",
  "or", "originally", "other", "others", "otherwise", "ought", "oughtn't", "our", "ours", "ourselves",
  "out", "outside", "over", "overall", "own", "particular", "particularly", "past", "per", "perhaps",
  "placed", "please", "possible", "presumably", "probably", "prove", "proved", "proves", "provided", "provides",
  "que", "quite", "qv", "rather", "rd", "re", "really", "reasonably", "recent", "recently",
  "reference", "regarding", "regardless", "regards", "relatively", "required", "respective", "respectively", "said", "same",
  "saw", "say", "saying", "says", "secondly", "see", "seeing", "seem", "seemed", "seeming",
  "seems", "seen", "self", "selves", "sensible", "sent", "serious", "seriously", "seven", "several",
  "shall", "shan't", "she", "she'd", "she'll", "she's", "should", "shouldn't", "show", "showed",
  "shows", "side", "similarly", "since", "six", "so", "solve", "solved", "solving", "some",
  "somebody", "someday", "somehow", "someone", "something", "sometime", "sometimes", "somewhat", "somewhere", "soon",
  "sorry", "specified", "specify", "specifying", "still", "sub", "such", "sup", "suppose", "sure",
  "t's", "take", "taken", "taking", "tell", "tends", "th", "than", "thank", "thanks",
  "thanx", "that", "that'll", "that's", "that've", "thats", "the", "their", "theirs", "them",
  "themselves", "then", "thence", "there", "there'd", "there'll", "there're", "there's", "there've", "thereafter",
  "thereby", "therefore", "therein", "theres", "thereupon", "these", "they", "they'd", "they'll", "they're",
  "they've", "thing", "things", "think", "thirty", "this", "thorough", "thoroughly", "those", "though",
  "three", "through", "throughout", "thru", "thus", "till", "to", "together", "too", "took",
  "toward", "towards", "tried", "tries", "truly", "try", "trying", "twice", "two", "un",
  "under", "underneath", "undoing", "unfortunately", "unless", "unlike", "unlikely", "until", "unto", "up",
  "upon", "upwards", "us", "use", "used", "useful", "uses", "using", "usually", "various",
  "versus", "very", "via", "viz", "vs", "want", "wants", "was", "wasn", "wasn't",
  "way", "we", "we'd", "we'll", "we're", "we've", "welcome", "well", "went", "were",
  "weren't", "what", "what'll", "what's", "what've", "whatever", "when", "whence", "whenever", "where",
  "where's", "whereafter", "whereas", "whereby", "wherein", "whereupon", "wherever", "whether", "which", "whichever",
  "while", "whilst", "whither", "who", "who'd", "who'll", "who's", "whoever", "whole", "whom",
  "whomever", "whose", "why", "will", "willing", "wish", "with", "within", "without", "won't",
  "wonder", "work", "would", "wouldn", "wouldn't", "write", "written", "yes", "yet", "you",
  "you'd", "you'll", "you're", "you've", "your", "yours", "yourself", "yourselves",
];
