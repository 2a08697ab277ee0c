// Names of environments that authors use, and what they stand for (a specification: written once, not generated from the tree under test)
use llamapun::ams::AmsEnv::{self, *};
pub const USED: &[(&str, AmsEnv)] = &[
  ("ack", Acknowledgement), ("ackn", Acknowledgement), ("ackno", Acknowledgement), ("acknow", Acknowledgement), ("acknowledge", Acknowledgement),
  ("acknowledgement", Acknowledgement), ("acknowledgements", Acknowledgement), ("acknowledgment", Acknowledgement), ("acknowledgments", Acknowledgement),
  ("acknowlegement", Acknowledgement), ("acks", Acknowledgement), ("thanks", Acknowledgement), ("affirmation", Affirmation), ("algm", Algorithm), ("alg", Algorithm),
  ("algo", Algorithm), ("algo1", Algorithm), ("algor", Algorithm), ("algor0", Algorithm), ("algorithm", Algorithm), ("algorithm1", Algorithm), ("algorithm2", Algorithm),
  ("algorithmdef", Algorithm), ("algorithme", Algorithm), ("algorithms", Algorithm), ("algoritmo", Algorithm), ("inneralgorithm", Algorithm), ("algx", Algorithm),
  ("heu", Algorithm), ("heur", Algorithm), ("heuristic", Algorithm), ("heuristics", Algorithm), ("myalgo", Algorithm), ("myalgorithm", Algorithm), ("meinalgorithmus", Algorithm),
  ("prealgorithm", Algorithm), ("protoalgorithm", Algorithm), ("aassumption", Assumption), ("as", Assumption), ("asm", Assumption), ("asmptn", Assumption), ("asn", Assumption),
  ("ass", Assumption), ("ass1", Assumption), ("asse", Assumption), ("asser", Assumption), ("assert", Assumption), ("assertion", Assumption), ("asslab", Assumption),
  ("assm", Assumption), ("assn", Assumption), ("assnot", Assumption), ("assp", Assumption), ("assu", Assumption), ("assuem", Assumption), ("assum", Assumption),
  ("assume", Assumption), ("assump", Assumption), ("assump1", Assumption), ("assumpb", Assumption), ("assumpc", Assumption), ("assumpt", Assumption), ("assumptio", Assumption),
  ("assumption", Assumption), ("assumption0", Assumption), ("assumption1", Assumption), ("assumption2", Assumption), ("assumptiona", Assumption), ("assumptionb", Assumption),
  ("assumptionbis", Assumption), ("assumptionc", Assumption), ("assumptiond", Assumption), ("assumptione", Assumption), ("assumptionint", Assumption),
  ("assumptionletter", Assumption), ("assumptionm", Assumption), ("assumptionmodel", Assumption), ("assumptionparac", Assumption), ("assumptionparad", Assumption),
  ("assumptionstar", Assumption), ("assumptionx", Assumption), ("assums", Assumption), ("asum", Assumption), ("ax", Assumption), ("axio", Assumption), ("axiom", Assumption),
  ("axioms", Assumption), ("axm", Assumption), ("gaxiom", Assumption), ("innerassumption", Assumption), ("itassumption", Assumption), ("modasm", Assumption), ("myass", Assumption),
  ("myassmpt", Assumption), ("myassump", Assumption), ("myassumption", Assumption), ("nnassumption", Assumption), ("notationassumption", Assumption),
  ("notationassumptions", Assumption), ("number", Assumption), ("postulate", Assumption), ("postulation", Assumption), ("prior", Assumption), ("sassumption", Assumption),
  ("shortassumption", Assumption), ("sideassumption", Assumption), ("simplifyingassumption", Assumption), ("standingassumption", Assumption), ("subsubaxiom", Assumption),
  ("bound", Bound), ("diag", Caption), ("fig", Caption), ("figcaption", Caption), ("figm", Caption), ("fignum", Caption), ("figure", Caption), ("figuretext", Caption),
  ("tab", Caption), ("tabel", Caption), ("tabl", Caption), ("tabla", Caption), ("table", Caption), ("tldiag", Caption), ("case", Case), ("case1", Case), ("case2", Case),
  ("case3", Case), ("caseone", Case), ("casestudy", Case), ("casetwo", Case), ("innercustomcase", Case), ("mycase", Case), ("scase", Case), ("sscase", Case), ("subcase", Case),
  ("subcase2", Case), ("subsubcase", Case), ("subsubsubcase", Case), ("tcase", Case), ("aclaim", Claim), ("alphaclaim", Claim), ("boldclaim", Claim), ("cclaim", Claim),
  ("cdellsclaim", Claim), ("cdtopiclaim", Claim), ("cla", Claim), ("clai", Claim), ("claim", Claim), ("claim1", Claim), ("claim2", Claim), ("claim3", Claim), ("claim4", Claim),
  ("claim5", Claim), ("claima", Claim), ("claimapp", Claim), ("claimb", Claim), ("claimc", Claim), ("claimenv", Claim), ("claimfoo", Claim), ("claimi", Claim), ("claimlncs", Claim),
  ("claimm", Claim), ("claimn", Claim), ("claimnn", Claim), ("claimno", Claim), ("claimnr", Claim), ("claimnum", Claim), ("claimone", Claim), ("claimprop3", Claim),
  ("claimq", Claim), ("claims", Claim), ("claimstar", Claim), ("claimsub", Claim), ("claimx", Claim), ("clm", Claim), ("defclaim", Claim), ("innercustomclaim", Claim),
  ("internalclaim", Claim), ("itclaim", Claim), ("jmclaim", Claim), ("lblclaim", Claim), ("mainclaim", Claim), ("mclaim", Claim), ("megaclaim", Claim), ("misclaim", Claim),
  ("myclaim", Claim), ("nclaim", Claim), ("newclaim", Claim), ("numberedclaim", Claim), ("numclaim", Claim), ("ourclaim", Claim), ("pclaim", Claim), ("prclaim", Claim),
  ("preclaim", Claim), ("procclaim", Claim), ("proclaim", Claim), ("proclaimmydef", Claim), ("quasiclaim", Claim), ("sclaim", Claim), ("proclaimmypreuve", Claim),
  ("subclai", Claim), ("subclaim", Claim), ("tclaim", Claim), ("tittoclaim", Claim), ("uclaim", Claim), ("varclaim", Claim), ("xclaim", Claim), ("clcriterion", Condition),
  ("cnd", Condition), ("cond", Condition), ("condi", Condition), ("condition", Condition), ("conditiona", Condition), ("conditionb", Condition), ("conditionc", Condition),
  ("conditions", Condition), ("condn", Condition), ("conds", Condition), ("crit", Condition), ("criteria", Condition), ("innercondition", Condition), ("lcon", Condition),
  ("mycond", Condition), ("ncond", Condition), ("ocond", Condition), ("xcondition", Condition), ("abconjecture", Conjecture), ("aconj", Conjecture), ("ansatz", Conjecture),
  ("cn", Conjecture), ("cnj", Conjecture), ("con", Conjecture), ("con1", Conjecture), ("con2", Conjecture), ("cona", Conjecture), ("conj", Conjecture), ("conj0", Conjecture),
  ("conj1", Conjecture), ("conj2", Conjecture), ("conja", Conjecture), ("conjb", Conjecture), ("conjc", Conjecture), ("conje", Conjecture), ("conjec", Conjecture),
  ("conject", Conjecture), ("conjecture", Conjecture), ("conjecture0", Conjecture), ("conjecture1", Conjecture), ("conjecture2", Conjecture), ("conjecturea", Conjecture),
  ("conjecturealpha", Conjecture), ("conjectureb", Conjecture), ("conjecturee", Conjecture), ("conjectureenv", Conjecture), ("conjectures", Conjecture), ("conjecturex", Conjecture),
  ("conjetura", Conjecture), ("conjintro", Conjecture), ("conjj", Conjecture), ("conjs", Conjecture), ("conjsn", Conjecture), ("conjstar", Conjecture), ("guess", Conjecture),
  ("guess1", Conjecture), ("guess2", Conjecture), ("guess3", Conjecture), ("guess8", Conjecture), ("hyp", Conjecture), ("hyp1", Conjecture), ("hypa", Conjecture),
  ("hypbase", Conjecture), ("hype", Conjecture), ("hypenglish", Conjecture), ("hypo", Conjecture), ("hypot", Conjecture), ("hypoth", Conjecture), ("hypothese", Conjecture),
  ("hypotheses", Conjecture), ("hypothesis", Conjecture), ("hyps", Conjecture), ("iconj", Conjecture), ("innerconjecture", Conjecture), ("innercustomhyp", Conjecture),
  ("introconj", Conjecture), ("introconjecture", Conjecture), ("itconjecture", Conjecture), ("mainconj", Conjecture), ("mainconjecture", Conjecture), ("mconj", Conjecture),
  ("myconj", Conjecture), ("myconjecture", Conjecture), ("ourconjecture", Conjecture), ("precon", Conjecture), ("preconj", Conjecture), ("rconjecture", Conjecture),
  ("sconj", Conjecture), ("sconjecture", Conjecture), ("subconj", Conjecture), ("conv", Convention), ("conve", Convention), ("conventie", Convention), ("convention", Convention),
  ("conventionfoo", Convention), ("conventionn", Convention), ("conventions", Convention), ("acorollary", Corollary), ("apulause", Corollary), ("bcorollary", Corollary),
  ("bigcorollary", Corollary), ("ccor", Corollary), ("ccoro", Corollary), ("ccorollary", Corollary), ("cl", Corollary), ("cllry", Corollary), ("cnv", Corollary), ("co", Corollary),
  ("col", Corollary), ("coll", Corollary), ("collary", Corollary), ("collolary", Corollary), ("collorary", Corollary), ("coly", Corollary), ("comq", Corollary), ("coor", Corollary),
  ("cor", Corollary), ("cor0", Corollary), ("cor1", Corollary), ("cor2", Corollary), ("cor3", Corollary), ("cor4", Corollary), ("cor5", Corollary), ("cora", Corollary),
  ("corabc", Corollary), ("coralph", Corollary), ("corb", Corollary), ("corbis", Corollary), ("corc", Corollary), ("cord", Corollary), ("corl", Corollary), ("cormy", Corollary),
  ("cornr", Corollary), ("coro", Corollary), ("coro0", Corollary), ("coro1", Corollary), ("coro2", Corollary), ("corob", Corollary), ("coroc", Corollary), ("corointro", Corollary),
  ("corol", Corollary), ("corolaire", Corollary), ("corolario", Corollary), ("corolary", Corollary), ("coroll", Corollary), ("coroll1", Corollary), ("corolla", Corollary),
  ("corollaire", Corollary), ("corollaire2", Corollary), ("corollaires", Corollary), ("corollar", Corollary), ("corollari", Corollary), ("corollaries", Corollary),
  ("corollario", Corollary), ("corollarium", Corollary), ("corollary", Corollary), ("corollary0", Corollary), ("corollary1", Corollary), ("corollary2", Corollary),
  ("corollary3", Corollary), ("corollary4", Corollary), ("corollarya", Corollary), ("corollaryalpha", Corollary), ("corollaryb", Corollary), ("corollaryc", Corollary),
  ("corollaryd", Corollary), ("corollaryenv", Corollary), ("corollaryfoo", Corollary), ("corollaryi", Corollary), ("corollaryinorder", Corollary), ("corollaryint", Corollary),
  ("corollaryintheorem", Corollary), ("corollaryintro", Corollary), ("corollaryk", Corollary), ("corollarylemma", Corollary), ("corollarylet", Corollary),
  ("corollaryloc", Corollary), ("corollarymain", Corollary), ("corollaryn", Corollary), ("corollarynn", Corollary), ("corollarynonum", Corollary), ("corollaryp", Corollary),
  ("corollarys", Corollary), ("corollaryst", Corollary), ("corollaryth", Corollary), ("corollaryx", Corollary), ("corollaryy", Corollary), ("corollory", Corollary),
  ("corollp", Corollary), ("coron", Corollary), ("coroplain", Corollary), ("coros", Corollary), ("corqed", Corollary), ("corr", Corollary), ("correspondence", Corollary),
  ("correspondence1", Corollary), ("corrly", Corollary), ("corro", Corollary), ("corrol", Corollary), ("corrolary", Corollary), ("corrollary", Corollary), ("corsub", Corollary),
  ("cort", Corollary), ("corx", Corollary), ("cory", Corollary), ("cri", Corollary), ("crl", Corollary), ("crl1", Corollary), ("crl2", Corollary), ("crll", Corollary),
  ("crllr", Corollary), ("crllry", Corollary), ("crlr", Corollary), ("crlre", Corollary), ("crlry", Corollary), ("crly", Corollary), ("custom", Corollary), ("cy", Corollary),
  ("ecor", Corollary), ("ecoro", Corollary), ("exxe", Corollary), ("gcorollary", Corollary), ("icorollary", Corollary), ("induction", Corollary), ("inequality", Corollary),
  ("innercorrep", Corollary), ("innercustomcoro", Corollary), ("introcorollary", Corollary), ("itcorollary", Corollary), ("ittheorem", Corollary), ("kor", Corollary),
  ("koro", Corollary), ("korollar", Corollary), ("lettercor", Corollary), ("maincor", Corollary), ("maincoro", Corollary), ("maincorollary", Corollary), ("mcoro", Corollary),
  ("mcorollary", Corollary), ("mcrl", Corollary), ("mscorollary", Corollary), ("mycol", Corollary), ("mycor", Corollary), ("mycoro", Corollary), ("mycorol", Corollary),
  ("mycorollary", Corollary), ("mycorr", Corollary), ("ncoro", Corollary), ("newcorollary", Corollary), ("newkorolari", Corollary), ("nncorol", Corollary),
  ("nncorollary", Corollary), ("nonumbercorollary", Corollary), ("ourcorollary", Corollary), ("precor", Corollary), ("precorol", Corollary), ("rigor2", Corollary),
  ("rmkk", Corollary), ("scor", Corollary), ("scorol", Corollary), ("scorollary", Corollary), ("subcorollary", Corollary), ("supos", Corollary), ("tcor", Corollary),
  ("tcorollary", Corollary), ("tem", Corollary), ("theorex", Corollary), ("thmcorollary", Corollary), ("uncorollary", Corollary), ("wn", Corollary), ("xcor", Corollary),
  ("xcorollary", Corollary), ("criterion", Criterion), ("1def", Definition), ("adefi", Definition), ("adefinition", Definition), ("adefinizione", Definition), ("adefn", Definition),
  ("appdefinition", Definition), ("bdefinition", Definition), ("bsubdefinition", Definition), ("citeddefn", Definition), ("cordef", Definition), ("cuhdef", Definition),
  ("d", Definition), ("d0", Definition), ("d2", Definition), ("dcldfn", Definition), ("ddd", Definition), ("ddefi", Definition), ("ddefinition", Definition), ("ddefn", Definition),
  ("de", Definition), ("deef", Definition), ("def", Definition), ("def1", Definition), ("def2", Definition), ("def21", Definition), ("def22", Definition), ("def3", Definition),
  ("def4", Definition), ("def5", Definition), ("def7", Definition), ("defa", Definition), ("defb", Definition), ("defc", Definition), ("defdefinition", Definition),
  ("defe", Definition), ("defen", Definition), ("defenglish", Definition), ("defenition", Definition), ("defex", Definition), ("deff", Definition), ("defff", Definition),
  ("deffie", Definition), ("defi", Definition), ("defi1", Definition), ("defi2", Definition), ("defif", Definition), ("defii", Definition), ("defin", Definition),
  ("defin1", Definition), ("defina", Definition), ("defination", Definition), ("definchapter", Definition), ("define", Definition), ("defined", Definition), ("definer", Definition),
  ("defini", Definition), ("definic1", Definition), ("definicao", Definition), ("definice", Definition), ("definicex", Definition), ("definicija", Definition),
  ("definicio", Definition), ("definicion", Definition), ("definicion2", Definition), ("definicja", Definition), ("definisjon", Definition), ("definit", Definition),
  ("definitia", Definition), ("definitie", Definition), ("definitin", Definition), ("definitio", Definition), ("definition", Definition), ("definition0", Definition),
  ("definition1", Definition), ("definition2", Definition), ("definition3", Definition), ("definition4", Definition), ("definition5", Definition), ("definitiona", Definition),
  ("definitionalph", Definition), ("definitionalpha", Definition), ("definitionat", Definition), ("definitionaux", Definition), ("definitionbase", Definition),
  ("definitioncore", Definition), ("definitioneng", Definition), ("definitionenv", Definition), ("definitionflat", Definition), ("definitionhack", Definition),
  ("definitionhead", Definition), ("definitionhelp", Definition), ("definitionint", Definition), ("definitionintro", Definition), ("definitionit", Definition),
  ("definitionk", Definition), ("definitionloc", Definition), ("definitionm", Definition), ("definitionn", Definition), ("definitionnonum", Definition),
  ("definitionnonumber", Definition), ("definitionplain", Definition), ("definitionrm", Definition), ("definitions", Definition), ("definitions1", Definition),
  ("definitionst", Definition), ("definitiont", Definition), ("definitiontemp", Definition), ("definitionvide", Definition), ("definitionx", Definition), ("definitn", Definition),
  ("definiton", Definition), ("definiz", Definition), ("definizione", Definition), ("definizioni", Definition), ("definrem", Definition), ("defins", Definition),
  ("defintion", Definition), ("defintro", Definition), ("defiplain", Definition), ("defipro", Definition), ("defis", Definition), ("defit", Definition), ("defiteo", Definition),
  ("defith", Definition), ("deflab", Definition), ("defm", Definition), ("defn", Definition), ("defn0", Definition), ("defn1", Definition), ("defn2", Definition),
  ("defn5", Definition), ("defna", Definition), ("defnc", Definition), ("defni", Definition), ("defnintro", Definition), ("defnm", Definition), ("defnn", Definition),
  ("defnonum", Definition), ("defnot", Definition), ("defnp", Definition), ("defnplain", Definition), ("defnrem", Definition), ("defns", Definition), ("defnsub", Definition),
  ("defnt", Definition), ("defo", Definition), ("defofentangidentical", Definition), ("defofentangidentical2", Definition), ("defqed", Definition), ("defs", Definition),
  ("defsatz", Definition), ("defstep", Definition), ("deft", Definition), ("deftemp", Definition), ("defx", Definition), ("defxxx", Definition), ("defy", Definition),
  ("defz", Definition), ("df2", Definition), ("dfa", Definition), ("dfafour", Definition), ("dfc", Definition), ("dfn", Definition), ("dfna", Definition), ("dfnbis", Definition),
  ("dfni", Definition), ("dfnl", Definition), ("dfnlem", Definition), ("dfnlm", Definition), ("dfnnr", Definition), ("dfns", Definition), ("dfnt", Definition),
  ("dfntn", Definition), ("dfnz", Definition), ("dfs", Definition), ("dft", Definition), ("dftemp", Definition), ("dftn", Definition), ("dn", Definition), ("dnt", Definition),
  ("dummydef", Definition), ("edef", Definition), ("edefi", Definition), ("edefin", Definition), ("edefinition", Definition), ("emdefi", Definition), ("emdefinition", Definition),
  ("engdef", Definition), ("envdef", Definition), ("fdef", Definition), ("fdefinition", Definition), ("fdefn", Definition), ("fed", Definition), ("fiebigdefinition", Definition),
  ("framednameddef", Definition), ("fsdefi", Definition), ("gdefinition", Definition), ("hdefn", Definition), ("idefinition", Definition), ("idfn", Definition),
  ("importantdefinition", Definition), ("innercustomdef", Definition), ("introdefi", Definition), ("introdefinition", Definition), ("introdefn", Definition),
  ("introdfn", Definition), ("italdeff", Definition), ("italicdefinition", Definition), ("itdef", Definition), ("itdefinition", Definition), ("jsvdef", Definition),
  ("knowndefinition", Definition), ("ldefinition", Definition), ("lemdefn", Definition), ("lemdfn", Definition), ("locdef", Definition), ("madef", Definition),
  ("maindef", Definition), ("maindefin", Definition), ("maindefinition", Definition), ("maindefn", Definition), ("mdefinition", Definition), ("mdefn", Definition),
  ("metadefinition", Definition), ("mydef", Definition), ("mydef1", Definition), ("mydef11", Definition), ("mydef12", Definition), ("mydef13", Definition), ("mydef2", Definition),
  ("mydef3", Definition), ("mydef4", Definition), ("mydef41", Definition), ("mydef42", Definition), ("mydef43", Definition), ("mydef5", Definition), ("mydef51", Definition),
  ("mydef52", Definition), ("mydef53", Definition), ("mydef6", Definition), ("mydef7", Definition), ("mydefc", Definition), ("mydefi", Definition), ("mydefine", Definition),
  ("mydefinition", Definition), ("mydefn", Definition), ("mydefname", Definition), ("mydefp", Definition), ("mydefs", Definition), ("nameddef", Definition), ("ndefi", Definition),
  ("ndefinition", Definition), ("nekdef", Definition), ("newdefine", Definition), ("newdefinition", Definition), ("nndefinition", Definition), ("numdef", Definition),
  ("opr", Definition), ("opred", Definition), ("owndefinition", Definition), ("pdef", Definition), ("pdefinition", Definition), ("peudefigura", Definition), ("predef", Definition),
  ("predefi", Definition), ("predefin", Definition), ("predefinition", Definition), ("predefn", Definition), ("predfn", Definition), ("prodef", Definition), ("prodefi", Definition),
  ("protodefinition", Definition), ("qtheorem", Definition), ("quasidefinition", Definition), ("rigdef", Definition), ("rmdefinitionplain", Definition),
  ("romandefinition", Definition), ("satzdef", Definition), ("sdef", Definition), ("sdefin", Definition), ("sdefinition", Definition), ("sdefn", Definition), ("ssdefn", Definition),
  ("stdef", Definition), ("stdefn", Definition), ("subdefinition", Definition), ("subdefn", Definition), ("szdfn", Definition), ("tdef", Definition), ("tdefinition", Definition),
  ("tempdefn", Definition), ("textofdefinition", Definition), ("thdef", Definition), ("thdefin", Definition), ("thedef", Definition), ("udefin", Definition),
  ("udefinition", Definition), ("udefn", Definition), ("vdef", Definition), ("xdef", Definition), ("xdefinition", Definition), ("xdefn", Definition), ("xtdef", Definition),
  ("demonstration", Demonstration), ("disc", Discussion), ("discussion", Discussion), ("notationanddiscussion", Discussion), ("appexample", Example), ("backtheorem", Example),
  ("baseexample", Example), ("beispiel", Example), ("bexample", Example), ("bigexample", Example), ("bp", Example), ("bsp", Example), ("bsp1", Example), ("bspe", Example),
  ("cexample", Example), ("cexpl", Example), ("conda", Example), ("counterexample", Example), ("csexample", Example), ("dexample", Example), ("e1", Example), ("eexam", Example),
  ("eexample", Example), ("eexemples", Example), ("eg", Example), ("ejem", Example), ("emexample", Example), ("emp", Example), ("ex", Example), ("ex1", Example), ("ex2", Example),
  ("ex3", Example), ("ex4", Example), ("exa", Example), ("exaa", Example), ("exam", Example), ("exam1", Example), ("exama", Example), ("examfoo", Example), ("examm", Example),
  ("examp", Example), ("exampl", Example), ("example", Example), ("example0", Example), ("example1", Example), ("example2", Example), ("example3", Example), ("examplea", Example),
  ("exampleapp", Example), ("exampleaux", Example), ("exampleb", Example), ("examplebase", Example), ("examplec", Example), ("examplecon", Example), ("examplecore", Example),
  ("exampledef", Example), ("exampledummy", Example), ("examplee", Example), ("exampleem", Example), ("exampleenv", Example), ("examplehidden", Example), ("examplehlp", Example),
  ("examplei", Example), ("exampleit", Example), ("examplelist", Example), ("exampleme", Example), ("examplen", Example), ("examplenn", Example), ("examplenodiamond", Example),
  ("examplenorm", Example), ("exampleold", Example), ("examplep", Example), ("examplepf", Example), ("exampleplain", Example), ("examplerm", Example), ("examples", Example),
  ("examplescenario", Example), ("exampletemp", Example), ("exampleth", Example), ("examplex", Example), ("examplit", Example), ("examps", Example), ("exams", Example),
  ("exas", Example), ("exaxxx", Example), ("exe", Example), ("exe1", Example), ("exem", Example), ("exem2", Example), ("exemp", Example), ("exempl", Example), ("exemple", Example),
  ("exemplo", Example), ("exex", Example), ("exm", Example), ("exmatmul", Example), ("exmp", Example), ("exmp3", Example), ("exmpl", Example), ("exmple", Example),
  ("exmples", Example), ("exmps", Example), ("exp", Example), ("expe", Example), ("expl", Example), ("expl2", Example), ("exple", Example), ("explo", Example), ("expls", Example),
  ("expltemap", Example), ("exz", Example), ("fexample", Example), ("hexample", Example), ("iexample", Example), ("innercontexample", Example), ("innerexample", Example),
  ("introexample", Example), ("itexample", Example), ("mainex", Example), ("mainexample", Example), ("mexample", Example), ("miex", Example), ("minorexmp", Example),
  ("myexam", Example), ("myexample", Example), ("myexampleplain", Example), ("myexmp", Example), ("newexample", Example), ("nexample", Example), ("nexp", Example),
  ("nnexmp", Example), ("nonexample", Example), ("numberedexample", Example), ("numexample", Example), ("nxmpl", Example), ("orexample", Example), ("plcexample", Example),
  ("preex", Example), ("preexample", Example), ("preexamples", Example), ("prexample", Example), ("proexample", Example), ("rexample", Example), ("rrexampleraw", Example),
  ("runex", Example), ("runningexample", Example), ("sexample", Example), ("subexample", Example), ("texample", Example), ("textofexample", Example), ("theexample", Example),
  ("theoremnl", Example), ("varexample", Example), ("xexample", Example), ("xmpl", Example), ("experiment", Experiment), ("explanation", Explanation), ("expansion", Expansion),
  ("expectation", Expectation), ("principle", Principle), ("algrule", Rule), ("arule", Rule), ("branchrule", Rule), ("brrule", Rule), ("brule", Rule), ("coordinates", Rule),
  ("crule", Rule), ("drule", Rule), ("grule", Rule), ("intruler", Rule), ("intrules", Rule), ("kernelrule", Rule), ("krule", Rule), ("mrule", Rule), ("myrule", Rule),
  ("polyrule", Rule), ("pruningrule", Rule), ("qrule", Rule), ("redrule", Rule), ("redrulebgvd", Rule), ("reducerule", Rule), ("reductionrule", Rule), ("rerule", Rule),
  ("rle", Rule), ("rrule", Rule), ("rul", Rule), ("rule", Rule), ("rule0", Rule), ("rules", Rule), ("rull", Rule), ("syntaxrule", Rule), ("trule", Rule), ("validrule", Rule),
  ("edgerule", Rule), ("definitionandfact", Fact), ("fac", Fact), ("fact", Fact), ("fact2", Fact), ("facta", Fact), ("factenv", Fact), ("factnum", Fact),
  ("factorizabilityidentical2", Fact), ("factpart", Fact), ("facts", Fact), ("factsub", Fact), ("factt", Fact), ("fakt", Fact), ("factfoo", Fact), ("faktum", Fact), ("fct", Fact),
  ("ffact", Fact), ("hfakt", Fact), ("myfact", Fact), ("nfact", Fact), ("ourfact", Fact), ("profact", Fact), ("romanfact", Fact), ("sfact", Fact), ("stylizedfact", Fact),
  ("subfact", Fact), ("issue", Issue), ("keywords", Keywords), ("alemma", Lemma), ("aplemma", Lemma), ("appendixlemma", Lemma), ("applemma", Lemma), ("approximationlemma", Lemma),
  ("appxlem", Lemma), ("appxlemma", Lemma), ("aslemma", Lemma), ("assumptions", Lemma), ("bigclm", Lemma), ("blemma", Lemma), ("defilemma", Lemma), ("definitionlemma", Lemma),
  ("deflemma", Lemma), ("defnlem", Lemma), ("dlemma", Lemma), ("elem", Lemma), ("elemme", Lemma), ("envlem", Lemma), ("exampletheoremenv", Lemma), ("fiebiglemma", Lemma),
  ("flemma", Lemma), ("frmlemmasup", Lemma), ("glemma", Lemma), ("innercustomlem", Lemma), ("innercustomlemma", Lemma), ("intlemnp", Lemma), ("itlemma", Lemma), ("keylem", Lemma),
  ("keylemma", Lemma), ("klemma", Lemma), ("la", Lemma), ("laemma", Lemma), ("lalpha", Lemma), ("lam", Lemma), ("le", Lemma), ("le1", Lemma), ("le2", Lemma), ("lelele", Lemma),
  ("lem", Lemma), ("lem0", Lemma), ("lem1", Lemma), ("lem2", Lemma), ("lem21", Lemma), ("lem22", Lemma), ("lem23", Lemma), ("lem3", Lemma), ("lem31", Lemma), ("lem32", Lemma),
  ("lema", Lemma), ("lema1", Lemma), ("lema2", Lemma), ("lemanom", Lemma), ("lemanonum", Lemma), ("lemap", Lemma), ("lemapp", Lemma), ("lemas", Lemma), ("lemat", Lemma),
  ("lembr", Lemma), ("lemenglish", Lemma), ("lemenum", Lemma), ("lemf", Lemma), ("lemm", Lemma), ("lemm1", Lemma), ("lemm2", Lemma), ("lemma", Lemma), ("lemma0", Lemma),
  ("lemma1", Lemma), ("lemma10", Lemma), ("lemma2", Lemma), ("lemma23", Lemma), ("lemma3", Lemma), ("lemma4", Lemma), ("lemma41", Lemma), ("lemma5", Lemma), ("lemma6", Lemma),
  ("lemma7", Lemma), ("lemma8", Lemma), ("lemmaa", Lemma), ("lemmaa1", Lemma), ("lemmaam", Lemma), ("lemmaapp", Lemma), ("lemmaappendix", Lemma), ("lemmaaux", Lemma),
  ("lemmabase", Lemma), ("lemmabis", Lemma), ("lemmabody", Lemma), ("lemmac", Lemma), ("lemmacase", Lemma), ("lemmad", Lemma), ("lemmadef", Lemma), ("lemmadefinition", Lemma),
  ("lemmae", Lemma), ("lemmaeng", Lemma), ("lemmaenv", Lemma), ("lemmaf", Lemma), ("lemmafoo", Lemma), ("lemmai", Lemma), ("lemmain", Lemma), ("lemmaint", Lemma),
  ("lemmaintro", Lemma), ("lemmait", Lemma), ("lemmak", Lemma), ("lemmaloc", Lemma), ("lemman", Lemma), ("lemmann", Lemma), ("lemmanonum", Lemma), ("lemmaprime", Lemma),
  ("lemmas", Lemma), ("lemmasec", Lemma), ("lemmast", Lemma), ("lemmastar", Lemma), ("lemmastyles", Lemma), ("lemmasub", Lemma), ("lemmasubs", Lemma), ("lemmasubsect", Lemma),
  ("lemmata", Lemma), ("lemmatweak", Lemma), ("lemmaun", Lemma), ("lemmaux", Lemma), ("lemmax", Lemma), ("lemme", Lemma), ("lemme1", Lemma), ("lemme2", Lemma), ("lemming", Lemma),
  ("lemmino", Lemma), ("lemmm", Lemma), ("lemmma", Lemma), ("lemms", Lemma), ("lemmx", Lemma), ("lemmy", Lemma), ("lemo", Lemma), ("lemqed", Lemma), ("lems", Lemma),
  ("lemsec", Lemma), ("letterlemma", Lemma), ("lkadlemma", Lemma), ("ll", Lemma), ("llemma", Lemma), ("lm", Lemma), ("lma", Lemma), ("lmb", Lemma), ("lmm", Lemma), ("lmm1", Lemma),
  ("lmm2", Lemma), ("lmma", Lemma), ("lmmno", Lemma), ("lms", Lemma), ("locallemma", Lemma), ("mainlem", Lemma), ("mainlemma", Lemma), ("mlem", Lemma), ("mlemma", Lemma),
  ("monlem", Lemma), ("mydlem3", Lemma), ("mylem", Lemma), ("mylemm", Lemma), ("mylemma", Lemma), ("mylm", Lemma), ("mylma", Lemma), ("mylmm", Lemma), ("newlemma", Lemma),
  ("nlemma", Lemma), ("nnlemma", Lemma), ("nolem", Lemma), ("nonolemma", Lemma), ("nonumberlemma", Lemma), ("nonumlemma", Lemma), ("ntlemma", Lemma), ("oldlemma", Lemma),
  ("ourlemma", Lemma), ("palemma", Lemma), ("plemma", Lemma), ("prealphlem", Lemma), ("prelem", Lemma), ("prelemm", Lemma), ("prelemma", Lemma), ("prolemma", Lemma),
  ("quasilemma", Lemma), ("quot", Lemma), ("replemma", Lemma), ("rmlemma", Lemma), ("rmlemmaplain", Lemma), ("seclemma", Lemma), ("slemma", Lemma), ("slemme", Lemma),
  ("souslemme", Lemma), ("starex", Lemma), ("steplemma", Lemma), ("sub", Lemma), ("sublem", Lemma), ("sublema", Lemma), ("sublemm", Lemma), ("sublemma", Lemma), ("sublm", Lemma),
  ("subsublemma", Lemma), ("suplemma", Lemma), ("technicallemma", Lemma), ("textoflemma", Lemma), ("theirlemma", Lemma), ("thmlemma", Lemma), ("tlemma", Lemma),
  ("twistinglemma", Lemma), ("unnumberedlemma", Lemma), ("xlem", Lemma), ("xlemm", Lemma), ("xlemma", Lemma), ("zamechanie", Lemma), ("bsubnotation", Notation),
  ("definitionnotation", Notation), ("localnotation", Notation), ("name", Notation), ("naming", Notation), ("nb", Notation), ("not", Notation), ("notac", Notation),
  ("notacao", Notation), ("notacion", Notation), ("notarem", Notation), ("notas", Notation), ("notat", Notation), ("notation", Notation), ("notation0", Notation),
  ("notationa", Notation), ("notationandreminder", Notation), ("notationdefinition", Notation), ("notationn", Notation), ("notationnum", Notation), ("notations", Notation),
  ("notification", Notation), ("notn", Notation), ("notns", Notation), ("nt", Notation), ("ntn", Notation), ("prenotac", Notation), ("prenotation", Notation), ("prerem", Notation),
  ("protobody", Notation), ("remarkaux", Notation), ("remnotation", Notation), ("setting", Notation), ("setup", Notation), ("snotation", Notation), ("subcounter", Notation),
  ("term", Notation), ("terminology", Notation), ("explain", Paragraph), ("parab", Paragraph), ("parag", Paragraph), ("paragr", Paragraph), ("paragrafonumerato", Paragraph),
  ("paragrafonumeratonome", Paragraph), ("paragraph", Paragraph), ("paragraphe", Paragraph), ("pargrph", Paragraph), ("ppar", Paragraph), ("ppara", Paragraph), ("pppar", Paragraph),
  ("restate", Paragraph), ("restateenv", Paragraph), ("sbpara", Paragraph), ("sect", Paragraph), ("subparag", Paragraph), ("subsec", Paragraph), ("classproblem", Problem),
  ("condb", Problem), ("coreproblem", Problem), ("corollaryin", Problem), ("cproblem", Problem), ("eioproblem", Problem), ("bwexerc", Problem), ("exc", Problem), ("exer", Problem),
  ("exercice", Problem), ("exercise", Problem), ("exercise0", Problem), ("exercisee", Problem), ("exercises", Problem), ("exes", Problem), ("exrc", Problem), ("exs", Problem),
  ("fproblem", Problem), ("hwproblem", Problem), ("introproblem", Problem), ("lem44", Problem), ("mainprob", Problem), ("mainproblem", Problem), ("myexe", Problem),
  ("myprob", Problem), ("myproblem", Problem), ("obv", Problem), ("open", Problem), ("openpb", Problem), ("openprob", Problem), ("openproblem", Problem), ("openq", Problem),
  ("opprob", Problem), ("oprob", Problem), ("oproblem", Problem), ("optimizationproblem", Problem), ("pb", Problem), ("pblm", Problem), ("pbm", Problem), ("prb", Problem),
  ("prbl", Problem), ("prblm", Problem), ("prbm", Problem), ("preprb", Problem), ("preprob", Problem), ("prob", Problem), ("prob1", Problem), ("prob2", Problem), ("proba", Problem),
  ("probalph", Problem), ("probdefi", Problem), ("probl", Problem), ("problem", Problem), ("problem1", Problem), ("problema", Problem), ("problemb", Problem), ("probleme", Problem),
  ("probleml", Problem), ("problems", Problem), ("problemz", Problem), ("problm", Problem), ("probs", Problem), ("probstatement", Problem), ("resprob", Problem),
  ("rhproblem", Problem), ("subproblem", Problem), ("testproblem", Problem), ("thmalg", Problem), ("tprob", Problem), ("xca", Problem), ("xopen", Problem), ("afirmativa", Proof),
  ("beweis", Proof), ("claimproof", Proof), ("clproof", Proof), ("cproof", Proof), ("cproofa", Proof), ("cproofb", Proof), ("eproof", Proof), ("lemproof", Proof), ("mproof", Proof),
  ("myproo", Proof), ("myproof", Proof), ("namedproof", Proof), ("notationinproof", Proof), ("oldproof", Proof), ("pf", Proof), ("pprf", Proof), ("preproof", Proof),
  ("preprooff", Proof), ("prf", Proof), ("proof", Proof), ("proof0", Proof), ("proof1", Proof), ("proof2", Proof), ("proof3", Proof), ("proof4", Proof), ("proof5", Proof),
  ("proofa", Proof), ("proofaux", Proof), ("proofcase", Proof), ("proofclaim", Proof), ("prooff", Proof), ("prooffact", Proof), ("proofhead", Proof), ("proofidea", Proof),
  ("prooflem", Proof), ("proofn", Proof), ("proofof", Proof), ("proofoftheorem", Proof), ("proofpart", Proof), ("proofprop", Proof), ("proofsketch", Proof), ("proofth", Proof),
  ("prooftheorem", Proof), ("proofthm", Proof), ("proofx", Proof), ("sketchofproof", Proof), ("theoremproof", Proof), ("xproof", Proof), ("5proposition", Proposition),
  ("approp", Proposition), ("appxprop", Proposition), ("aprop", Proposition), ("aproposition", Proposition), ("bproposition", Proposition), ("dclprop", Proposition),
  ("definitionproposition", Proposition), ("defiprop", Proposition), ("defnprop", Proposition), ("defprop", Proposition), ("demosprop", Proposition), ("dfnprop", Proposition),
  ("dfprop", Proposition), ("dproposition", Proposition), ("eprop", Proposition), ("eproposition", Proposition), ("fait", Proposition), ("fiebigproposition", Proposition),
  ("fprop", Proposition), ("fsprop", Proposition), ("gproposition", Proposition), ("gstatement", Proposition), ("statement", Proposition), ("stmt", Proposition),
  ("subprop", Proposition), ("hprop", Proposition), ("hproposition", Proposition), ("hyllprop", Proposition), ("innercustomprop", Proposition),
  ("innercustomproposition", Proposition), ("introprop", Proposition), ("introproposition", Proposition), ("iprop", Proposition), ("iproposition", Proposition),
  ("itproposition", Proposition), ("kmprop", Proposition), ("kspproposition", Proposition), ("lprop", Proposition), ("lproposition", Proposition), ("mainprop", Proposition),
  ("mainproposition", Proposition), ("maprop", Proposition), ("mathproposition", Proposition), ("mdprop", Proposition), ("mpro", Proposition), ("mprop", Proposition),
  ("mproposition", Proposition), ("msproposition", Proposition), ("myprop", Proposition), ("mypropd", Proposition), ("myproposition", Proposition), ("myprp", Proposition),
  ("myproperty", Proposition), ("namedprop", Proposition), ("newprop", Proposition), ("newproposition", Proposition), ("nnprop", Proposition), ("nnproposition", Proposition),
  ("nonumberproposition", Proposition), ("nprop", Proposition), ("nproposition", Proposition), ("numprop", Proposition), ("ourproposition", Proposition), ("p", Proposition),
  ("pn", Proposition), ("pp", Proposition), ("ppn", Proposition), ("ppro", Proposition), ("pproposition", Proposition), ("ppsn", Proposition), ("pr", Proposition),
  ("pr1", Proposition), ("pr4", Proposition), ("pr5", Proposition), ("pred", Proposition), ("predl", Proposition), ("prepos", Proposition), ("preposition", Proposition),
  ("preprop", Proposition), ("preproposition", Proposition), ("pro", Proposition), ("pro1", Proposition), ("pro2", Proposition), ("pro3", Proposition), ("pro4", Proposition),
  ("pro5", Proposition), ("prop", Proposition), ("prop0", Proposition), ("prop1", Proposition), ("prop2", Proposition), ("prop22", Proposition), ("prop23", Proposition),
  ("prop3", Proposition), ("prop31", Proposition), ("prop33", Proposition), ("prop4", Proposition), ("prop5", Proposition), ("prop52", Proposition), ("prop6", Proposition),
  ("prop7", Proposition), ("propa", Proposition), ("propaat", Proposition), ("propal", Proposition), ("propalg", Proposition), ("propalph", Proposition), ("propalpha", Proposition),
  ("propandef", Proposition), ("propasympcap", Proposition), ("propaux", Proposition), ("propb", Proposition), ("propbibl", Proposition), ("propbis", Proposition),
  ("propc", Proposition), ("propconstr", Proposition), ("propd", Proposition), ("propdef", Proposition), ("propdefi", Proposition), ("propdefn", Proposition),
  ("propdfn", Proposition), ("prope", Proposition), ("proper", Proposition), ("properti", Proposition), ("properties", Proposition), ("property", Proposition),
  ("propf", Proposition), ("propgl", Proposition), ("propi", Proposition), ("propie", Proposition), ("propiedad", Proposition), ("proping", Proposition), ("propint", Proposition),
  ("propintro", Proposition), ("propm", Proposition), ("propmy", Proposition), ("propn", Proposition), ("propnon", Proposition), ("propnonnum", Proposition),
  ("propnr", Proposition), ("propns", Proposition), ("propnum", Proposition), ("propo", Proposition), ("propo1", Proposition), ("propoa", Proposition), ("propoplain", Proposition),
  ("propos", Proposition), ("proposal", Proposition), ("propose", Proposition), ("proposi", Proposition), ("proposicao", Proposition), ("proposicio", Proposition),
  ("proposicion", Proposition), ("proposit", Proposition), ("propositin", Proposition), ("propositio", Proposition), ("proposition", Proposition), ("proposition0", Proposition),
  ("proposition1", Proposition), ("proposition2", Proposition), ("proposition3", Proposition), ("propositiona", Proposition), ("propositionalpha", Proposition),
  ("propositionam", Proposition), ("propositionapp", Proposition), ("propositionappendix", Proposition), ("propositionb", Proposition), ("propositionbase", Proposition),
  ("propositioncommand", Proposition), ("propositiondefinition", Proposition), ("propositionenv", Proposition), ("propositionloc", Proposition), ("propositionn", Proposition),
  ("propositionnoadvance", Proposition), ("propositionnon", Proposition), ("propositionnum", Proposition), ("propositionnumthm", Proposition), ("propositionp", Proposition),
  ("propositions", Proposition), ("propositionst", Proposition), ("propositionsubsect", Proposition), ("propositionx", Proposition), ("proposiz", Proposition),
  ("proposizione", Proposition), ("propozycja", Proposition), ("propp", Proposition), ("propposition", Proposition), ("propr", Proposition), ("propri", Proposition),
  ("propriedade", Proposition), ("propriete", Proposition), ("proprietes", Proposition), ("proprop", Proposition), ("props", Proposition), ("propstar", Proposition),
  ("propsub", Proposition), ("propsubs", Proposition), ("propt", Proposition), ("proptweak", Proposition), ("propty", Proposition), ("propx", Proposition), ("propy", Proposition),
  ("pros", Proposition), ("prp", Proposition), ("prp1", Proposition), ("prp2", Proposition), ("prpd", Proposition), ("prpl", Proposition), ("prpn", Proposition),
  ("prpp", Proposition), ("prps", Proposition), ("prpstn", Proposition), ("prpsub", Proposition), ("prpsubf", Proposition), ("prpt", Proposition), ("prrop", Proposition),
  ("refprop", Proposition), ("sat", Proposition), ("sbprop", Proposition), ("secprop", Proposition), ("sectionprop", Proposition), ("spprop", Proposition), ("spropo", Proposition),
  ("sproposition", Proposition), ("refine", Proposition), ("restatement", Proposition), ("state", Proposition), ("statem", Proposition), ("statement1", Proposition),
  ("statm", Proposition), ("statment", Proposition), ("stprop", Proposition), ("stw", Proposition), ("subproperty", Proposition), ("subproposition", Proposition),
  ("subprops", Proposition), ("supproposition", Proposition), ("surprop", Proposition), ("tempprop", Proposition), ("thp", Proposition), ("thprop", Proposition),
  ("tprop", Proposition), ("varprop", Proposition), ("wproposition", Proposition), ("xprop", Proposition), ("xproposition", Proposition), ("boldquestion", Question),
  ("emquestion", Question), ("innerquestion", Question), ("introquestion", Question), ("mainquestion", Question), ("myquest", Question), ("myquestion", Question), ("op", Question),
  ("openquestion", Question), ("prequestion", Question), ("puzzle", Question), ("q", Question), ("qn", Question), ("qst", Question), ("qstn", Question), ("qtn", Question),
  ("qu", Question), ("que", Question), ("que1", Question), ("query", Question), ("ques", Question), ("quesb", Question), ("quess", Question), ("quest", Question),
  ("quest0", Question), ("question", Question), ("question0", Question), ("question1", Question), ("question2", Question), ("question3", Question), ("questionapp", Question),
  ("questionb", Question), ("questioni", Question), ("questionintro", Question), ("questions", Question), ("queststar", Question), ("researchquestion", Question),
  ("rquestion", Question), ("subquestion", Question), ("varquestion", Question), ("vopros", Question), ("mycomment", Comment), ("comment", Comment), ("commentary", Comment),
  ("comments", Comment), ("note", Note), ("lnote", Note), ("mynote", Note), ("notice", Notice), ("hint", Hint), ("localobservation", Observation), ("myobservation", Observation),
  ("myoss", Observation), ("ob", Observation), ("obs", Observation), ("observ", Observation), ("observacao", Observation), ("observacio", Observation), ("observacion", Observation),
  ("observation", Observation), ("observations", Observation), ("observe", Observation), ("observen", Observation), ("obss", Observation), ("os", Observation), ("oss", Observation),
  ("osse", Observation), ("osserv", Observation), ("osserva", Observation), ("osservazione", Observation), ("preobserv", Observation), ("summary", Summary), ("a3remark", Remark),
  ("aremark", Remark), ("auxremark", Remark), ("baseremark", Remark), ("bem", Remark), ("bemerkung", Remark), ("bigremark", Remark), ("bremark", Remark), ("bremarknote", Remark),
  ("brmk", Remark), ("bsubremarknote", Remark), ("definitionremark", Remark), ("defremark", Remark), ("deno", Remark), ("dummyrem", Remark), ("emrem", Remark), ("emremark", Remark),
  ("eremark", Remark), ("introremark", Remark), ("iremark", Remark), ("itremark", Remark), ("kmremark", Remark), ("localremark", Remark), ("mcc", Remark), ("miniremark", Remark),
  ("mirem", Remark), ("mrem", Remark), ("mremark", Remark), ("myrek", Remark), ("myrem", Remark), ("myrema", Remark), ("myremark", Remark), ("myremarks", Remark),
  ("myrems", Remark), ("myrm", Remark), ("myrmk", Remark), ("newremark", Remark), ("nnremark", Remark), ("nremark", Remark), ("nrmk", Remark), ("nrmks", Remark), ("nrmrk", Remark),
  ("ntremark", Remark), ("numberedremark", Remark), ("numremark", Remark), ("numrk", Remark), ("numrmk", Remark), ("plainremarks", Remark), ("preremark", Remark),
  ("preremark2", Remark), ("proremark", Remark), ("protoremark", Remark), ("r", Remark), ("re", Remark), ("reem", Remark), ("rek", Remark), ("rem", Remark), ("rem0", Remark),
  ("rem1", Remark), ("rem3", Remark), ("rem5", Remark), ("rema", Remark), ("remak", Remark), ("remar", Remark), ("remark", Remark), ("remark0", Remark), ("remark1", Remark),
  ("remark2", Remark), ("remark3", Remark), ("remark4", Remark), ("remark5", Remark), ("remark6", Remark), ("remarka", Remark), ("remarkapp", Remark), ("remarkat", Remark),
  ("remarkb", Remark), ("remarkbase", Remark), ("remarkdef", Remark), ("remarkdefinition", Remark), ("remarke", Remark), ("remarkeng", Remark), ("remarkenv", Remark),
  ("remarkf", Remark), ("remarkhelp", Remark), ("remarki", Remark), ("remarkinorder", Remark), ("remarkintro", Remark), ("remarkk", Remark), ("remarkl", Remark),
  ("remarkm", Remark), ("remarkn", Remark), ("remarknodiamond", Remark), ("remarknon", Remark), ("remarknonum", Remark), ("remarknonumber", Remark), ("remarknorm", Remark),
  ("remarknum", Remark), ("remarknumb", Remark), ("remarko", Remark), ("remarkplain", Remark), ("remarkpro", Remark), ("remarkr", Remark), ("remarks", Remark),
  ("remarkstar", Remark), ("remarksub", Remark), ("remarktemp", Remark), ("remarkth", Remark), ("remarkthe", Remark), ("remarku", Remark), ("remarkunnumbered", Remark),
  ("remarkwr", Remark), ("remarkx", Remark), ("remarq", Remark), ("remarque", Remark), ("remarques", Remark), ("remarquesubsect", Remark), ("remarque2", Remark),
  ("rembold", Remark), ("reme", Remark), ("remf", Remark), ("remk", Remark), ("remnonumber", Remark), ("remrk", Remark), ("rems", Remark), ("remsgl", Remark), ("remxxx", Remark),
  ("rk", Remark), ("rm", Remark), ("rmk", Remark), ("rmk0", Remark), ("rmk1", Remark), ("rmk2", Remark), ("rmka", Remark), ("rmkks", Remark), ("rmknr", Remark), ("rmkp", Remark),
  ("rmks", Remark), ("rmksub", Remark), ("rmktemp", Remark), ("rmq", Remark), ("rmqs", Remark), ("rmr", Remark), ("rmr2", Remark), ("rmrk", Remark), ("rmrq", Remark),
  ("romanremark", Remark), ("rq", Remark), ("rqe1", Remark), ("rque", Remark), ("rremark", Remark), ("sideremark", Remark), ("sidermk", Remark), ("smallremark", Remark),
  ("sremark", Remark), ("srmk", Remark), ("subremark", Remark), ("thremark", Remark), ("topology", Remark), ("torsionremark", Remark), ("unnumberedremark", Remark),
  ("unnumrem", Remark), ("unremark", Remark), ("unremarks", Remark), ("uremark", Remark), ("uw", Remark), ("varremark", Remark), ("vetremark", Remark), ("xrem", Remark),
  ("xremark", Remark), ("xrmk", Remark), ("zero", Remark), ("answer", Answer), ("conclude", Conclusion), ("conclusion", Conclusion), ("conclusions", Conclusion), ("final", Result),
  ("mainresult", Result), ("mdresult", Result), ("numres", Result), ("priorresults", Result), ("res", Result), ("resu", Result), ("resul", Result), ("result", Result),
  ("resultat", Result), ("results", Result), ("resump", Result), ("solution", Solution), ("solutions", Solution), ("cons", Constraint), ("constr", Constraint),
  ("constraint", Constraint), ("constraints", Constraint), ("constrinternal", Constraint), ("art", Step), ("astep", Step), ("chunk", Step), ("construct", Step),
  ("construction", Step), ("constructions", Step), ("cstep", Step), ("emf", Step), ("nothing", Step), ("ournothing", Step), ("pstep", Step), ("reduction", Step), ("require", Step),
  ("stage", Step), ("step", Step), ("step1", Step), ("step2", Step), ("step3", Step), ("step4", Step), ("step5", Step), ("stepa", Step), ("stepb", Step), ("stepmain", Step),
  ("stepn", Step), ("stepnamed", Step), ("stepnn", Step), ("stepp", Step), ("stepwise", Step), ("substep", Step), ("ttt", Step), ("5theorem", Theorem), ("a3theorem", Theorem),
  ("abctheorem", Theorem), ("abcthm", Theorem), ("algthm", Theorem), ("alphatheorem", Theorem), ("alphathm", Theorem), ("alphtheorem", Theorem), ("alphthm", Theorem),
  ("alpthm", Theorem), ("appendthm", Theorem), ("apptheorem", Theorem), ("appthm", Theorem), ("appxthm", Theorem), ("astheorem", Theorem), ("atheo", Theorem), ("atheorem", Theorem),
  ("athm", Theorem), ("bbthm", Theorem), ("bigteo", Theorem), ("bigtheo", Theorem), ("bigtheorem", Theorem), ("bigthm", Theorem), ("blanktheorem", Theorem), ("btheo", Theorem),
  ("btheorem", Theorem), ("bthm", Theorem), ("bwtheorem", Theorem), ("cbthm", Theorem), ("citedtheorem", Theorem), ("citedthm", Theorem), ("citetheorem", Theorem),
  ("citethm", Theorem), ("citingtheorem", Theorem), ("citingthm", Theorem), ("classicaltheorem", Theorem), ("corthm", Theorem), ("ctheorem", Theorem), ("cthm", Theorem),
  ("cuhtheorem", Theorem), ("dclthm", Theorem), ("definitiontheorem", Theorem), ("defitheo", Theorem), ("defithm", Theorem), ("defnthm", Theorem), ("deftheorem", Theorem),
  ("defthm", Theorem), ("dthm", Theorem), ("emptytheorem", Theorem), ("emptythm", Theorem), ("envthm", Theorem), ("etheo", Theorem), ("etheorem", Theorem), ("ethm", Theorem),
  ("examplethm", Theorem), ("externaltheorem", Theorem), ("exthm", Theorem), ("extthm", Theorem), ("fiebigtheorem", Theorem), ("ftheo", Theorem), ("ftheorem", Theorem),
  ("fthm", Theorem), ("generictheorem", Theorem), ("genericthm", Theorem), ("globaltheorem", Theorem), ("gtheorem", Theorem), ("hthm", Theorem), ("informaltheorem", Theorem),
  ("infthm", Theorem), ("innercustomtheorem", Theorem), ("innercustomthm", Theorem), ("innertheorem", Theorem), ("innerthm", Theorem), ("introth", Theorem), ("introtheo", Theorem),
  ("introtheorem", Theorem), ("introthm", Theorem), ("inttheorem", Theorem), ("intthm", Theorem), ("intthmnp", Theorem), ("itheorem", Theorem), ("ithm", Theorem), ("jthm", Theorem),
  ("keytheorem", Theorem), ("keythm", Theorem), ("knownthm", Theorem), ("kthm", Theorem), ("letteredtheorem", Theorem), ("lettertheorem", Theorem), ("letterthm", Theorem),
  ("letthm", Theorem), ("lgrthm", Theorem), ("localtheorem", Theorem), ("ltheorem", Theorem), ("lthm", Theorem), ("main", Theorem), ("main1", Theorem), ("main2", Theorem),
  ("main3", Theorem), ("maina", Theorem), ("mainb", Theorem), ("maint", Theorem), ("mainteo", Theorem), ("mainth", Theorem), ("maintheo", Theorem), ("maintheorem", Theorem),
  ("maintheorem1", Theorem), ("maintheorem2", Theorem), ("maintheorema", Theorem), ("maintheoremb", Theorem), ("maintheorems", Theorem), ("mainthm", Theorem), ("mainthm2", Theorem),
  ("mainthma", Theorem), ("mainthmb", Theorem), ("mainthmintro", Theorem), ("mainthms", Theorem), ("mainthrm", Theorem), ("metatheorem", Theorem), ("metathm", Theorem),
  ("minithm", Theorem), ("mmtheorem", Theorem), ("montheo", Theorem), ("mstheorem", Theorem), ("mtheo", Theorem), ("mtheorem", Theorem), ("mthm", Theorem), ("mthm2", Theorem),
  ("mthma", Theorem), ("mthmb", Theorem), ("mydeftheorem", Theorem), ("myptheorem", Theorem), ("myteo", Theorem), ("myth", Theorem), ("mytheo", Theorem), ("mytheorem", Theorem),
  ("mythm", Theorem), ("mythmd", Theorem), ("mythname", Theorem), ("mythrm", Theorem), ("namedtheorem", Theorem), ("namedthm", Theorem), ("newteorem", Theorem),
  ("newtheorem", Theorem), ("newthm", Theorem), ("nntheorem", Theorem), ("nnthm", Theorem), ("nonumbertheorem", Theorem), ("nonumberthm", Theorem), ("nonumtheorem", Theorem),
  ("nonumthm", Theorem), ("normaltheorem", Theorem), ("nostheorem", Theorem), ("notheorem", Theorem), ("nteo", Theorem), ("ntheorem", Theorem), ("nthm", Theorem), ("ntt", Theorem),
  ("nttn", Theorem), ("numlessthm", Theorem), ("numthm", Theorem), ("oldtheorem", Theorem), ("oldthm", Theorem), ("otheorem", Theorem), ("other", Theorem), ("otherl", Theorem),
  ("otherth", Theorem), ("othertheorem", Theorem), ("otherthm", Theorem), ("othm", Theorem), ("ourtheorem", Theorem), ("ourthm", Theorem), ("pkt", Theorem), ("prealphthm", Theorem),
  ("pretheo", Theorem), ("pretheorem", Theorem), ("pretheorema", Theorem), ("prethm", Theorem), ("prevtheorem", Theorem), ("primetheorem", Theorem), ("priteo", Theorem),
  ("proclaimmythm", Theorem), ("proctheorem", Theorem), ("prothe", Theorem), ("psfiguretheo", Theorem), ("ptctheorem", Theorem), ("ptheorem", Theorem), ("qthm", Theorem),
  ("quasitheorem", Theorem), ("quotethm", Theorem), ("rawnamedtheorem", Theorem), ("referencetheorem", Theorem), ("reftheorem", Theorem), ("refthm", Theorem),
  ("remarkaftertheorem", Theorem), ("remthm", Theorem), ("repeatthm", Theorem), ("reptheorem", Theorem), ("repthm", Theorem), ("retheorem", Theorem), ("rethm", Theorem),
  ("rmtheorem", Theorem), ("rmtheoremplain", Theorem), ("roughtheorem", Theorem), ("rteorema", Theorem), ("rtheorem", Theorem), ("rthm", Theorem), ("satz", Theorem),
  ("sbthm", Theorem), ("sec3thm1", Theorem), ("secondtheorem", Theorem), ("secthm", Theorem), ("smalltheorem", Theorem), ("snthm", Theorem), ("specialthm", Theorem),
  ("sstheorem", Theorem), ("ssthm", Theorem), ("st", Theorem), ("stat", Theorem), ("stheorem", Theorem), ("stheoreme", Theorem), ("sthm", Theorem), ("stthm", Theorem),
  ("subth", Theorem), ("subtheorem", Theorem), ("subthm", Theorem), ("surtheoreme", Theorem), ("surthm", Theorem), ("szthm", Theorem), ("t", Theorem), ("t1", Theorem),
  ("t32", Theorem), ("t41", Theorem), ("t5", Theorem), ("taggedtheoremx", Theorem), ("talpha", Theorem), ("te", Theorem), ("tempthm", Theorem), ("teo", Theorem), ("teo1", Theorem),
  ("teo2", Theorem), ("teoa", Theorem), ("teoalpha", Theorem), ("teob", Theorem), ("teoc", Theorem), ("teoi", Theorem), ("teointro", Theorem), ("teon", Theorem),
  ("teononum", Theorem), ("teoo", Theorem), ("teor", Theorem), ("teor2", Theorem), ("teora", Theorem), ("teore", Theorem), ("teoreema", Theorem), ("teorem", Theorem),
  ("teorema", Theorem), ("teorema1", Theorem), ("teoremab", Theorem), ("teoremac", Theorem), ("teoru", Theorem), ("teos", Theorem), ("textoftheorem", Theorem), ("th", Theorem),
  ("th1", Theorem), ("th11", Theorem), ("th12", Theorem), ("th13", Theorem), ("th2", Theorem), ("th3", Theorem), ("th4", Theorem), ("th5", Theorem), ("th6", Theorem),
  ("th7", Theorem), ("th8", Theorem), ("th9", Theorem), ("the", Theorem), ("the1", Theorem), ("theirtheorem", Theorem), ("them", Theorem), ("theo", Theorem), ("theo1", Theorem),
  ("theo2", Theorem), ("theo3", Theorem), ("theo4", Theorem), ("theoa", Theorem), ("theoaa", Theorem), ("theoalph", Theorem), ("theoalpha", Theorem), ("theoapp", Theorem),
  ("theoaux", Theorem), ("theob", Theorem), ("theobis", Theorem), ("theoc", Theorem), ("theocite", Theorem), ("theod", Theorem), ("theodef", Theorem), ("theoe", Theorem),
  ("theoenglish", Theorem), ("theoext", Theorem), ("theof", Theorem), ("theog", Theorem), ("theoi", Theorem), ("theoi1", Theorem), ("theoint", Theorem), ("theointr", Theorem),
  ("theointro", Theorem), ("theom", Theorem), ("theomain", Theorem), ("theon", Theorem), ("theononnum", Theorem), ("theoo", Theorem), ("theop", Theorem), ("theor", Theorem),
  ("theor1", Theorem), ("theore", Theorem), ("theorem", Theorem), ("theorem0", Theorem), ("theorem1", Theorem), ("theorem11", Theorem), ("theorem14", Theorem),
  ("theorem2", Theorem), ("theorem3", Theorem), ("theorem31", Theorem), ("theorem4", Theorem), ("theorem5", Theorem), ("theorem6", Theorem), ("theorem7", Theorem),
  ("theorema", Theorem), ("theoremabc", Theorem), ("theoremain", Theorem), ("theoremalph", Theorem), ("theoremalpha", Theorem), ("theoremanddefinition", Theorem),
  ("theoremann", Theorem), ("theoremapp", Theorem), ("theoremappendix", Theorem), ("theoremaux", Theorem), ("theoremb", Theorem), ("theorembase", Theorem), ("theorembk", Theorem),
  ("theoremc", Theorem), ("theoremcite", Theorem), ("theoremcited", Theorem), ("theoremconstruction", Theorem), ("theoremd", Theorem), ("theoremdef", Theorem),
  ("theoremdefinition", Theorem), ("theoremdemo", Theorem), ("theoreme", Theorem), ("theoremempty", Theorem), ("theoremeng", Theorem), ("theoremenv", Theorem),
  ("theoremf", Theorem), ("theoremfoo", Theorem), ("theoremg", Theorem), ("theoremh", Theorem), ("theoremi", Theorem), ("theoremii", Theorem), ("theoremin", Theorem),
  ("theoreminorder", Theorem), ("theoremint", Theorem), ("theoremintro", Theorem), ("theoreml", Theorem), ("theoremlet", Theorem), ("theoremletter", Theorem),
  ("theoremletters", Theorem), ("theoremloc", Theorem), ("theoremm", Theorem), ("theoremmain", Theorem), ("theoremmm", Theorem), ("theoremn", Theorem), ("theoremname", Theorem),
  ("theoremnamed", Theorem), ("theoremnew1", Theorem), ("theoremnn", Theorem), ("theoremno", Theorem), ("theoremnon", Theorem), ("theoremnonum", Theorem),
  ("theoremnonumber", Theorem), ("theoremnum", Theorem), ("theoremone", Theorem), ("theoremothers", Theorem), ("theoremp", Theorem), ("theoremq", Theorem),
  ("theoremquote", Theorem), ("theoremrinner", Theorem), ("theoremroman", Theorem), ("theorems", Theorem), ("theorems1", Theorem), ("theoremsec", Theorem),
  ("theoremsection", Theorem), ("theoremsn", Theorem), ("theoremst", Theorem), ("theoremstar", Theorem), ("theoremsubsubsect", Theorem), ("theoremu", Theorem),
  ("theoremun", Theorem), ("theoremunnum", Theorem), ("theoremvoid", Theorem), ("theoremx", Theorem), ("theoremz", Theorem), ("theorintro", Theorem), ("theorm", Theorem),
  ("theorsect", Theorem), ("theory", Theorem), ("theos", Theorem), ("theosec", Theorem), ("theostar", Theorem), ("theoun", Theorem), ("theoy", Theorem), ("ther", Theorem),
  ("therm", Theorem), ("thero", Theorem), ("thh", Theorem), ("thhilf", Theorem), ("thintro", Theorem), ("thm", Theorem), ("thm0", Theorem), ("thm1", Theorem), ("thm10", Theorem),
  ("thm11", Theorem), ("thm12", Theorem), ("thm13", Theorem), ("thm1a", Theorem), ("thm2", Theorem), ("thm21", Theorem), ("thm3", Theorem), ("thm31", Theorem), ("thm4", Theorem),
  ("thm41", Theorem), ("thm42", Theorem), ("thm5", Theorem), ("thm51", Theorem), ("thm6", Theorem), ("thm7", Theorem), ("thm8", Theorem), ("thm9", Theorem), ("thma", Theorem),
  ("thma1", Theorem), ("thma2", Theorem), ("thmaa", Theorem), ("thmab", Theorem), ("thmabc", Theorem), ("thmain", Theorem), ("thmalph", Theorem), ("thmalpha", Theorem),
  ("thmap", Theorem), ("thmapp", Theorem), ("thmappsec", Theorem), ("thmasmp", Theorem), ("thmast", Theorem), ("thmb", Theorem), ("thmb1", Theorem), ("thmbibl", Theorem),
  ("thmbis", Theorem), ("thmbody", Theorem), ("thmc", Theorem), ("thmchapter", Theorem), ("thmcite", Theorem), ("thmcor", Theorem), ("thmd", Theorem), ("thmdef", Theorem),
  ("thmdefinition", Theorem), ("thmdefn", Theorem), ("thme", Theorem), ("thmeg", Theorem), ("thmempty", Theorem), ("thmenv", Theorem), ("thmetoile", Theorem), ("thmext", Theorem),
  ("thmf", Theorem), ("thmg", Theorem), ("thmgl", Theorem), ("thmh", Theorem), ("thmi", Theorem), ("thmii", Theorem), ("thmiii", Theorem), ("thmin", Theorem), ("thmint", Theorem),
  ("thmintr", Theorem), ("thmintro", Theorem), ("thmk", Theorem), ("thml", Theorem), ("thmlabel", Theorem), ("thmlem", Theorem), ("thmletter", Theorem), ("thmlit", Theorem),
  ("thmm", Theorem), ("thmmain", Theorem), ("thmn", Theorem), ("thmnn", Theorem), ("thmno", Theorem), ("thmnodot", Theorem), ("thmnon", Theorem), ("thmnonnum", Theorem),
  ("thmnonum", Theorem), ("thmnonumber", Theorem), ("thmnr", Theorem), ("thmns", Theorem), ("thmnum", Theorem), ("thmo", Theorem), ("thmothers", Theorem), ("thmp", Theorem),
  ("thmpart", Theorem), ("thmplain", Theorem), ("thmprime", Theorem), ("thmq", Theorem), ("thmqed", Theorem), ("thmquote", Theorem), ("thmr", Theorem), ("thmref", Theorem),
  ("thmresult", Theorem), ("thmrlwe", Theorem), ("thmrule", Theorem), ("thms", Theorem), ("thmsec", Theorem), ("thmsect", Theorem), ("thmspec", Theorem), ("thmspecial", Theorem),
  ("thmstar", Theorem), ("thmsub", Theorem), ("thmszn", Theorem), ("thmt", Theorem), ("thmtheorem", Theorem), ("thmthm", Theorem), ("thmtweak", Theorem), ("thmtwo", Theorem),
  ("thmu", Theorem), ("thmuncount", Theorem), ("thmw", Theorem), ("thmwn", Theorem), ("thmx", Theorem), ("thmy", Theorem), ("thmz", Theorem), ("thr", Theorem), ("thrm", Theorem),
  ("thrm1", Theorem), ("thrm2", Theorem), ("thrma", Theorem), ("thrmb", Theorem), ("ths", Theorem), ("thtable", Theorem), ("ththm", Theorem), ("titletheo", Theorem),
  ("tm", Theorem), ("tm2", Theorem), ("tm3", Theorem), ("tm4", Theorem), ("tm5", Theorem), ("tm6", Theorem), ("tm7", Theorem), ("tm8", Theorem), ("tmnl", Theorem), ("trm", Theorem),
  ("trma", Theorem), ("tteo", Theorem), ("ttheo", Theorem), ("ttheorem", Theorem), ("tthm", Theorem), ("ttm", Theorem), ("tw", Theorem), ("unnumberedtheorem", Theorem),
  ("unnumberedthm", Theorem), ("unnumthm", Theorem), ("untheorem", Theorem), ("unthm", Theorem), ("utheorem", Theorem), ("uthm", Theorem), ("vartheorem", Theorem),
  ("varthm", Theorem), ("varthrm", Theorem), ("void", Theorem), ("vthm", Theorem), ("xtheo", Theorem), ("xtheorem", Theorem), ("xthm", Theorem),
];
