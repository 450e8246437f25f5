NA = {
    "C11": "The deciding step would be running pairs of programs (original and fixed) over an unbounded value space with the real Qt; what can be enumerated about the edits as program text is decided by C10. One deviation (qgetenv().isNull()) is demanded by the existing tests.",
    "C15": "No independent oracle for which methods of Qt's containers count as detaching: overload resolution contradicts the existing tests for methods left out on purpose, so an exhaustive check could not be sound.",
    "C31": "The plugin's state is process-global by design and the preemption points lie inside clang and libstdc++, for which there is no controlled scheduler here; histories within one process are decided by C06.",
}
C["C01"] = ("bounded-exhaustive exploration of selection sequences on the real binary against a reference model", "model_checking",
            TB + "Every sequence of selection tokens up to length 3 (4 in part in the thorough tier) from an alphabet with each token kind, over the plugin argument, the level argument, CLAZY_CHECKS, their combinations and clazy-standalone -checks; every check and fix-it name alone.")
C["C02"] = ("bounded-exhaustive exploration of comment placements on the real plugin against a reference model of suppression", "model_checking",
            TB + "Every placement of one and two suppression comments (three in part) of the complete comment alphabet over a file with several warnings per line and check, in both comment forms, in main file and header, with and without final newline.")
C["C03"] = ("bounded-exhaustive exploration of filter configurations on the real plugin and standalone tool against a reference model of the filters", "model_checking",
            TB + "All combinations of the filter settings over one translation unit with findings in the main file, two user headers, a system header and macros; every line filter document of a small grammar.")
C["C04"] = ("bounded-exhaustive exploration of severity settings on the real plugin, clang and standalone tool against a reference model", "model_checking",
            TB + "All combinations of warning flags, CLAZY_NO_WERROR and CLAZY_CHECKS_AS_ERRORS lists over programs with every kind of check.")
C["C06"] = ("bounded-exhaustive exploration of translation unit histories in one process, each position compared with a process of its own", "model_checking",
            TB + "All histories up to length 3 over 14 translation units and configurations in a plugin host process, up to 3 in clazy-standalone and clang-tidy, and A,B,A histories over the real-Qt corpus with all checks enabled.")
C["C08"] = ("bounded-exhaustive exploration of program mutations and of uses of look-alike declarations on the real plugin (built with assertions), next to the compiler without clazy", "model_checking",
            TB + "Every single-token mutation of small units and of the test sources against the real Qt which still compiles (determined with the compiler alone), their spellings through macros and as templates; about 90 units in which every class and namespace name clazy looks for has other members, used in every kind of expression; about 190 kinds of expressions in 36 kinds of functions; every macro clazy looks at with 22 definitions and 8 uses; all language modes; deep and long programs; object code and diagnostics of real Qt sources. A hang is an analysis of more than 60 to 200 s.")
C["C09"] = ("bounded-exhaustive exploration of input sequences and fault positions on the real tools, exported YAML compared with the diagnostics' edits", "model_checking",
            TB + "All sequences up to length 2 over 13 inputs (fixable, several edits, header, compile errors at two places, fatal error, missing, suppressed, macro...) and up to 3 over 6 of them for clazy-standalone, every input for the plugin, and the real-Qt corpus.")
REF = "bounded-exhaustive enumeration of %s, the real check executed on each and compared with %s"
C["C14"] = (REF % ("signatures of a grammar and of connect call forms", "Qt's own normalisation code"), "model_checking",
            TB + "About 120000 signatures and type names (qualifier placement, templates, keywords, whitespace, zero to four parameters) and every call form; the oracle is Qt 5.15's private header compiled into a helper.")
C["C18"] = (REF % ("call graphs and call forms", "graph reachability"), "model_checking",
            TB + "Every call graph over two methods with all call orders, three methods, cycles up to length 12 (59), every pair of 44 call forms for constructor/destructor, inline/out-of-line, const/virtual.")
C["C21"] = (REF % ("enumerations over small value tuples and initialiser forms", "a reference model"), "model_checking",
            TB + "Every tuple of four to six values of small domains, each value up to 300 (5000) in a flag pattern, every initialiser form and underlying type.")
C["C22"] = (REF % ("strings over the descriptor alphabet in every argument position", "a recogniser of the JNI grammar"), "model_checking",
            TB + "Every string up to a bound over the alphabet of names, classes and signatures, edits of valid ones, literals of up to 100000 characters, every call form.")
C["C23"] = (REF % ("pairs of names and directive sequences", "a reference preprocessor and edit distance"), "model_checking",
            TB + "Every pair of names up to length 5 (6) over two letters, every one- and two-edit neighbour of long names, every sequence of up to 4 (5) directives.")
C["C17"] = (REF % ("combinations of special member forms, members, bases and uses", "a model of the language rules for implicit members (itself validated with static assertions by the compiler)"), "model_checking",
            TB + "About 80000 classes in the quick tier, 310000 in the thorough one: every form of destructor, copy and move operations, with 19 kinds of members and 17 kinds of bases.")
C["C26"] = (REF % ("event types times event classes times cast and statement forms", "a table written from Qt's documentation and a model of the enclosing case"), "model_checking",
            TB + "Every QEvent::Type times every event class, and every nesting of switches, ifs, loops and casts up to a bound.")
C["C13"] = (REF % ("class bodies (sequences of sections, markers and members)", "the meta-object compilers of Qt 5 and Qt 6 run on the same text"), "model_checking",
            TB + "About 28000 class bodies in the quick tier: every sequence of up to 3 (4) section labels with methods, every sequence of up to 3 (4) markers and specifiers, everything else a body can contain in every position, observed through six checks.")
C["C19"] = (REF % ("class hierarchies", "a model of overriding, overloading and skipped bases"), "model_checking",
            TB + "Every chain of up to 4 classes over 10 (6) declarations per class, every pair of parameter spellings, interfaces, private and virtual bases, forward declarations, every form of qualified call.")
C["C20"] = (REF % ("the cross product of connect argument forms", "a model of what each form means"), "model_checking",
            TB + "About 27000 calls compiled against the real headers of Qt 5 and of Qt 6 in the quick tier; the thorough tier takes the whole product.")
C["C27"] = (REF % ("container, key and declaration forms", "a model of the key's canonical type"), "model_checking",
            TB + "Every container times key type times spelling times declaration kind.")
C["C05"] = ("bounded-exhaustive exploration of (source, set of checks) pairs on the three real programs, their outputs compared with each other", "model_checking",
            TB + "Every check alone and every level over small translation units which have findings of most checks, a translation unit with a finding in every position, and real Qt sources (one per check directory; all of them in the thorough tier) with all checks.")
C["C07"] = ("bounded-exhaustive exploration of sets of enabled checks (alone, pairs, all but one, halves, other orders) and of syntactic positions, on the real plugin", "model_checking",
            TB + "Small translation units: every check alone, every pair with findings, all but one; real Qt sources: subsets which separate every two checks with findings; 20 wrappers times 198 positions of an expression, 32 positions of a class.")
C["C10"] = ("bounded-exhaustive exploration of programs per fix-it on the real plugin: the edits are applied, the result is compiled and analysed again, until there are no edits", "model_checking",
            TB + "About 65000 programs (quick) for 24 checks against the real headers of Qt 5 and Qt 6: object forms times calls times 55 expression contexts times 11 spellings of white space and comments times 13 enclosing declarations.")
C["C16"] = (REF % ("types times function kinds, positions, passing modes and uses of the parameter", "the compiler's type traits and a model of the uses"), "model_checking",
            TB + "About 55000 functions and 10000 loops (quick), 270000 (thorough): 60 types around both thresholds, 33 kinds of functions, every position among six parameters, 60 uses.")
C["C24"] = (REF % ("property declarations (subsets and orders of attributes, white space, pairs of types)", "moc of Qt 5 and of Qt 6 and the compiler's type identity"), "model_checking",
            TB + "All sequences of up to two attributes and subsets of up to three (four), all pairs of 60 type spellings in READ, WRITE, NOTIFY and MEMBER position, sequences of up to three (four) classes.")
C["C25"] = (REF % ("types built from names, templates and modifiers in every position moc looks at", "the generator's knowledge of every full name; edits are applied, compiled and analysed again"), "model_checking",
            TB + "Every name and spelling times modifiers, templates nested up to depth two (three), scopes and positions; real headers of Qt 5 and Qt 6 and their moc.")
C["C28"] = (REF % ("literals, calls, call chains and expression positions", "a reference model of the documented rules"), "model_checking",
            TB + "20 wrappers times 198 expression positions for each check, all short literals over an alphabet around the ASCII boundary, all chains of arg() calls up to a length, with the real headers of Qt 5 and Qt 6.")
