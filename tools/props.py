#!/usr/bin/env python3
"""Source of properties.jsonl (kept here so that each entry stays readable)."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, state=(), obs=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
                          "mechanism": [dict(name=a, where=b) for a, b in mech],
                          "observe_at": list(obs), "hook_needed": None}})


p("C01", "The enabled set of checks is exactly what the user selected",
  "For every selection given through the plugin argument, the clazy-standalone -checks option and/or CLAZY_CHECKS, the checks that run are the union of the named checks (by check name or by fix-it name) and the named levels (a level contains all lower levels) minus every check named with the no- prefix, wherever it stands in the list; with nothing enabled explicitly the default is level1. "
  "Names that do not exist are reported as invalid and change nothing else, except that a plugin or standalone list in which no name at all is valid is rejected with a message. The result does not depend on the order or repetition of the names. (What happens when a list enables checks and itself disables all of them is left open.)",
  ["configurations"],
  "every sequence of selection tokens (levels, check names of each level, fix-it names, no- names, unknown names, the empty list) up to a length, through every input channel and combination of two channels",
  "test_requested_checks.sh samples about a dozen selections; the space is all token sequences over three channels that are merged",
  ["src/checkmanager.cpp", "src/Clazy.cpp", "src/ClazyStandaloneMain.cpp", "checks.json", "src/Checks.h"],
  [("requestedChecks / checksForCommaSeparatedString", "src/checkmanager.cpp"), ("ParseArgs", "src/Clazy.cpp")],
  obs=["-list-checks output", "clazy 'list enabled checks' output", "which check names appear in diagnostics"])

p("C02", "Suppression comments silence exactly the warnings they name",
  "A warning is suppressed if and only if a comment of the file it is reported in covers it: clazy:skip covers the whole file, clazy:excludeall=a,b those checks in the whole file, clazy:exclude=a,b those checks on that line (the line the warning is reported at, also when it comes from a macro), clazy:exclude-next-line=a,b those checks on the next line, NOLINT and NOLINTNEXTLINE every check (or, with a parenthesised list of clazy- names or globs, exactly those) on that or the next line, and a matched NOLINTBEGIN/NOLINTEND pair every check (or exactly the listed ones) from the line of the first to the line of the second comment. "
  "This holds for every number of warnings and checks on a line, every combination, nesting and position of comments (including the last line of a file without a final newline), and a comment never affects another file.",
  ["inputs", "programs"],
  "every placement of up to three suppression comments from the full comment alphabet over a small file with several warnings of two checks per line, in // and /* */ form, in the main file and in an included file",
  "the two suppression test files exercise one comment per line and at most one warning per check and line",
  ["src/SuppressionManager.cpp", "src/SuppressionManager.h", "src/checkbase.cpp"],
  [("parseFile: comment scan", "src/SuppressionManager.cpp"), ("isSuppressed", "src/SuppressionManager.cpp")],
  [("m_processedFileIDs", "parsed suppressions per file", "src/SuppressionManager.h")],
  ["diagnostics of the plugin"])

p("C03", "Location filters admit exactly the warnings they describe",
  "A warning is emitted if and only if every active filter admits the file and line it is reported at: warnings located in system headers never, in included files unless ignore-included-files is set and the check supports it (can_ignore_includes), nothing at all with only-qt in a translation unit that is not compiled as Qt code, in headers other than the main file only if CLAZY_HEADER_FILTER/-header-filter (if given) matches the file name, in no file whose path matches CLAZY_IGNORE_DIRS/-ignore-dirs, and with -line-filter only on the listed lines of the listed (suffix-matched) files. "
  "The filters compose: enabling one never makes a warning appear, and the main file is never dropped by the header filter. A command line option takes precedence over the environment variable of the same meaning.",
  ["configurations", "inputs"],
  "every combination of filter settings (unset, matching, non-matching, partial) over a translation unit with warnings in the main file, two user headers in different directories and a system header; every line-filter document of a small grammar",
  "tests/clazy-standalone has one file per filter; combinations, the plugin/environment channel and range boundaries are not exercised",
  ["src/Clazy.cpp", "src/ClazyContext.cpp", "src/ClazyContext.h", "src/checkbase.cpp", "src/ClazyVisitHelper.cpp", "src/ClazyStandaloneMain.cpp"],
  [("shouldIgnoreFile / fileMatchesLoc / passesLineFilter", "src/ClazyContext.cpp"), ("traverse entry", "src/ClazyVisitHelper.cpp")],
  obs=["diagnostics of plugin and standalone"])

p("C04", "Severity and exit status follow the configuration",
  "Every clazy warning is reported exactly once, with its check name as [-Wclazy-<name>] and severity warning, except that it is an error when its check is listed in CLAZY_CHECKS_AS_ERRORS, or when -Werror is in force (not turned off again by -Wno-error) and CLAZY_NO_WERROR is not set. Other -W options (-w, -Wno-...) change neither presence nor severity of clazy's warnings. "
  "The compiler's exit status is failure if and only if some emitted diagnostic is an error; a check's severity never depends on other checks being listed.",
  ["configurations"],
  "every subset of {-Werror, CLAZY_NO_WERROR, -w} times every CLAZY_CHECKS_AS_ERRORS list of up to two entries over the enabled checks, unknown names and empty entries, times programs with and without findings",
  "two test files cover -Werror alone and with CLAZY_NO_WERROR, no test covers combinations with CLAZY_CHECKS_AS_ERRORS",
  ["src/checkbase.cpp", "src/ClazyContext.cpp", "src/checkmanager.cpp", "src/Clazy.cpp"],
  [("reallyEmitWarning", "src/checkbase.cpp"), ("treatAsError", "src/ClazyContext.h")],
  obs=["diagnostic level, exit status"])

p("C05", "Plugin, clazy-standalone and clang-tidy module agree",
  "For the same source, compiler flags and enabled checks, the compiler plugin, clazy-standalone and the clang-tidy module report the same warnings (file, line, column, check, text) and propose the same edits (apart from what clang-tidy itself does to any module's diagnostics: merging equal texts of several checks, dropping overlapping edits, tidying white space, hiding what comes from system macros). Every check is available under the same name in all three.",
  ["programs", "configurations"],
  "every check taken alone and level0..2 and all checks together, over a corpus with at least one finding per check, for Qt5 and Qt6",
  "the test suite compares each front end with an expectation file for fixed inputs and check selections; it never compares front ends on other inputs, and skips the tidy module for many tests",
  ["src/Clazy.cpp", "src/ClazyStandaloneMain.cpp", "src/ClazyClangTidyModule.cpp", "src/ClazyVisitHelper.cpp"],
  [("three entry points sharing the visit helper", "src/ClazyVisitHelper.cpp")],
  obs=["diagnostics, exported fixes"])

p("C06", "A file's result does not depend on the files analysed before it",
  "When one process analyses several translation units in sequence (clazy-standalone with several files, clang-tidy with several files, a plugin host such as an IDE), each file yields exactly the diagnostics it yields when analysed alone. "
  "This holds for every order, for repeated files, and for files with errors in between.",
  ["histories"],
  "every ordered history of length up to 3 over an alphabet of translation units that together trigger every check and every piece of per-process state (Qt and non-Qt files, files that fail to compile, identical files at the same locations)",
  "every test runs a fresh process for one file, so nothing exercises state that survives a translation unit",
  ["src/ClazyContext.cpp", "src/ClazyContext.h", "src/checkmanager.cpp", "src/ClazyClangTidyModule.cpp", "src/FixItExporter.cpp", "src/checks/manuallevel/reserve-candidates.cpp"],
  [("per-translation-unit context and check objects", "src/Clazy.cpp")],
  [("function-local statics and namespace-scope variables", "state that outlives a translation unit", "src/**")],
  ["diagnostics per translation unit"])

p("C07", "Checks do not influence each other and report each finding once",
  'The diagnostics a check produces for a source are the same whether it runs alone, with any other check, with all but one, or with all checks, in whatever order they are listed; a disabled check reports nothing. No diagnostic (same check, place and text) is reported twice, and a finding is reported exactly once wherever in the program it stands: in every position of an expression (initialisers, conditions, default arguments, lambdas, templates with several instantiations, ...) and of a class definition, and once per macro use.',
  ["configurations", "programs"],
  "for a corpus with findings of every check: each check alone versus every pair with a partner and versus all checks",
  "each test enables one check (or a few) for its own file; interactions between checks sharing one context are not tested",
  ["src/checkbase.cpp", "src/ClazyVisitHelper.cpp", "src/ClazyContext.cpp", "src/PreProcessorVisitor.cpp", "src/AccessSpecifierManager.cpp"],
  [("shared visitation with per-check state", "src/ClazyVisitHelper.cpp")],
  [("m_emittedWarningsInMacro / m_emittedManualFixItsWarningsInMacro", "duplicates filter", "src/checkbase.h")],
  ["diagnostics"])

p("C08", "Analysis never crashes and never changes the compilation",
  "For every translation unit, in any supported language mode and with every check enabled, the analysis terminates without a crash, an assertion failure or a hang, and the compiler's own diagnostics are the same as without clazy; "
  "this includes translation units with errors (which clazy analyses up to the first statement only), classes and functions which share a name with one of Qt's but not its declaration, uninstantiated templates and code within macros. "
  "For a valid input the generated object code is the same with and without clazy.",
  ["inputs", "programs"],
  "every single-token deletion, duplication, replacement and swap of programs that exercise each check, those spelled through macros and made dependent, uses of classes named like Qt's with other members, every language feature, plus empty, deep and long declarations",
  "tests only feed complete, well-formed files which use Qt as intended",
  ["src/ClazyVisitHelper.cpp", "src/checks", "src/Utils.cpp", "src/QtUtils.cpp", "src/TypeUtils.cpp"],
  [("null and validity guards in every visitor", "src/checks")],
  obs=["process status, compiler diagnostics, object file"])

p("C09", "Exported fixes are complete and exact, whatever the run looked like",
  "With fix export enabled, the replacements file written contains every edit of every clazy warning emitted during the run, with the file, offset, length and text the warning carried, and nothing else; suppressed or filtered warnings contribute nothing. "
  "This holds for every sequence of files given to clazy-standalone, including files without findings, files with compile errors, missing files and repeated files.",
  ["histories", "fault_sequences"],
  "every ordered sequence of up to 3 inputs over {fixable, several fixes, no finding, compile error, missing file, suppressed} for clazy-standalone and every single input for the plugin",
  "fix export is tested with one file per run only",
  ["src/FixItExporter.cpp", "src/FixItExporter.h", "src/ClazyContext.cpp", "src/ClazyStandaloneMain.cpp"],
  [("FixItExporter diagnostic consumer", "src/FixItExporter.cpp"), ("export at context destruction", "src/ClazyContext.cpp")],
  [("TranslationUnitDiagnostics accumulator, TU counter", "what is pending export", "src/FixItExporter.cpp, src/ClazyContext.cpp")],
  ["the YAML file"])

p("C10", "Fix-its are applicable: the fixed code compiles and the warning is gone",
  "For qgetenv, qdatetime-utc, qfileinfo-exists, qcolor-from-literal, isempty-vs-count, use-arrow-operator-instead-of-data, use-chrono-in-qtimer, qbytearray-conversion-to-c-style, qstring-ref, qt-keyword-emit, qt-keywords, sanitize-inline-keyword, auto-unexpected-qstringbuilder, range-loop-reference, range-loop-detach, detaching-temporary, detaching-member, copyable-polymorphic, missing-qobject-macro, modernize-overloaded-connects, old-style-connect, qstring-allocations, function-args-by-ref and function-args-by-value, and valid sources with Qt 5 or Qt 6: applying all edits of the warnings of the check is possible without conflict (an edit inside another edit waits for the next round), yields a source that compiles, and repeating it while there are edits ends with none of the warnings that carried edits left. "
  "Edits stay within the declaration or statement of the warning, but for the #include that use-chrono-in-qtimer and missing-qobject-macro add. This covers expressions in parentheses, behind pointers, references, members, calls and qualified names, any white space, comments and line breaks between tokens, macro arguments, templates, lambdas and out-of-line definitions. "
  "Left open: several warnings in one macro invocation, bodies of macros; detaching calls whose result is modified or stored as reference, pointer or iterator; builders of QByteArray; polymorphic classes which are copied or declare their copies; casts, braces and conditional operators around QString and QLatin1String literals, literals which are not ASCII, parenthesised or prefixed; decltype of a cast to QColor; conversions from the result of toTime_t() to QChar.",
  ["programs"],
  "every program of a bounded grammar per fix-it producing check (expression shapes, parentheses, macros, templates, namespaces, out-of-line definitions, several findings per statement), Qt5 and Qt6",
  "fixed files are compared with expectation files for the handful of test sources only",
  ["src/FixItUtils.cpp", "src/checks"],
  [("createReplacement/createInsertion and per-check fix-its", "src/FixItUtils.cpp")],
  obs=["edits applied to the source, compiler verdict, second analysis"])

p("C11", "Fix-its that rewrite expressions preserve the program's results",
  "Replacing code by the edits of qgetenv, qdatetime-utc, qfileinfo-exists, qcolor-from-literal, isempty-vs-count, use-chrono-in-qtimer, qstring-allocations, empty-qstringliteral, detaching-* and range-loop-* produces a program that computes the same results as the original for every input. ",
  ["programs", "inputs"],
  "every expression of a bounded grammar per check, both programs executed against the real Qt library over a set of environments/values",
  "the test suite compares fixed text only; it never runs original and fixed code",
  ["src/checks/level0/qgetenv.cpp", "src/checks/level0/qdatetime-utc.cpp", "src/checks/level0/qfileinfo-exists.cpp", "src/checks/level0/qcolor-from-literal.cpp", "src/checks/manuallevel/isempty-vs-count.cpp", "src/checks/manuallevel/use-chrono-in-qtimer.cpp"],
  [("per-check replacement construction", "src/checks")],
  obs=["observable results of both programs"])

p("C13", "Qt access specifiers are understood as moc understands them",
  'For every class with Q_OBJECT that moc accepts and every sequence of access sections (public, protected, private, each with slots or Q_SLOTS, signals, Q_SIGNALS, in any layout) and per-method markers (Q_SIGNAL, Q_SLOT, Q_INVOKABLE, before or among the specifiers of the declaration), each method is treated as signal, slot, invokable or plain exactly as moc classifies it, by every check that depends on it; the one exception is that Q_INVOKABLE inside a slots or signals section makes a method invokable. This covers whatever else stands in the class body, nested plain classes, several classes per file, forward declarations, and methods of any form. Left open: section labels or declarations which come out of user macros, contradictory markers, Q_SCRIPTABLE alone, constructors outside of public sections, nested classes with Q_OBJECT.',
  ["programs"],
  "every sequence of section labels and markers up to length 4 with a method after each, for one class, for two consecutive and for nested classes; moc's own output is the oracle",
  "tests have a few hand-written classes; the classification depends on the order of sections inside the whole file",
  ["src/AccessSpecifierManager.cpp", "src/AccessSpecifierManager.h", "src/checks/level1/const-signal-or-slot.cpp", "src/checks/level1/incorrect-emit.cpp", "src/checks/manuallevel/signal-with-return-value.cpp"],
  [("preprocessor callback recording of section macros, merged with AST access specifiers", "src/AccessSpecifierManager.cpp")],
  [("section list per class, sorted by location", "Qt sections seen so far", "src/AccessSpecifierManager.h")],
  ["warnings of checks that depend on the classification"])

p("C14", "connect-not-normalized agrees with Qt's own normalisation",
  "For every SIGNAL()/SLOT() signature passed to a string-based connect call, and every type name passed through Q_ARG/Q_RETURN_ARG (QArgument, QReturnArgument, QMetaMethodArgument), the check warns exactly once if the text differs from what Qt's QMetaObject::normalizedSignature (normalizedType for the type names, both as in Qt 5.15) makes of it, and not at all otherwise; the warning names that normalised text and the original one. Signatures outside of connect calls never warn.",
  ["inputs"],
  "every signature of a bounded grammar (const/volatile placement, references, pointers, templates, unsigned/long/struct/class keywords, whitespace variants, zero to two parameters); Qt's library is the oracle",
  "tests contain a couple of signatures; the normaliser is a hand copy of Qt's code",
  ["src/checks/level0/connect-not-normalized.cpp", "src/NormalizedSignatureUtils.h"],
  [("normalizedSignature", "src/NormalizedSignatureUtils.h")],
  obs=["warning text"])

p("C15", "Detachment warnings match the containers' const/non-const interface",
  "detaching-temporary warns exactly when a call on a temporary implicitly shared Qt container selects a non-const overload that has a const counterpart (or otherwise detaches), detaching-member does so for members, strict-iterators exactly when a const_iterator and a non-const iterator are mixed, and range-loop-detach exactly when a range-for iterates a non-const shared container that may be shared; const objects, const overloads and non-shared containers never warn.",
  ["programs"],
  "every container type times every member function of the documented detaching set times every object form (temporary, const temporary, member, const member, local, reference, pointer) and use",
  "tests sample container/method pairs; the tables in QtUtils list some twenty classes with a dozen methods each",
  ["src/checks/level1/detaching-temporary.cpp", "src/checks/manuallevel/detaching-member.cpp", "src/checks/detachingbase.cpp", "src/checks/level0/strict-iterators.cpp", "src/checks/level1/range-loop-detach.cpp", "src/QtUtils.cpp"],
  [("detaching method tables", "src/QtUtils.cpp")],
  obs=["warnings per line"])

p("C16", "Parameters are classified by size and triviality correctly",
  "function-args-by-ref warns exactly for parameters of function definitions which are passed by value, whose type is not trivially copy constructible and destructible or is larger than 16 bytes, and which the body does not modify or move; function-args-by-value warns exactly for const lvalue reference parameters of complete types which are trivially copy constructible and destructible and of at most 16 bytes, except in copy constructors, defaulted functions, overriders, operator=, operator== and operator<<, and for constructor parameters which initialise a reference member; by-ref does not consider operator<< either. Neither considers dependent types, shared pointers and the ignored Qt classes. "
  "Modified or moved means: a non-const member function or operator is called on it, it or a member of it is assigned, incremented, decremented or bound to a local non-const reference, or it is an argument of a call whose parameter is a non-const lvalue reference, rvalue reference or pointer to non-const (including std::move into a member initialiser). range-loop-reference warns exactly for loop variables by value of types which are not trivially copy constructible and destructible, under the same conditions, if the range is of class type. "
  "The verdict depends only on the parameter's type and use, not on the parameter's position, on the other parameters, or on the kind of function (free, member, constructor, lambda, template, local, nested, friend...). Copies by other pointers to the parameter, array types and classes which can only be copied from non-const objects are not covered.",
  ["programs"],
  "every combination of type (sizes around the threshold, trivial or not in each special member, enums, pointers, arrays, templates, typedefs) times passing mode times use in the body times function kind",
  "tests contain a few types; triviality and size thresholds and each way of using the parameter multiply",
  ["src/TypeUtils.cpp", "src/checks/level2/function-args-by-ref.cpp", "src/checks/level2/function-args-by-value.cpp", "src/checks/level1/range-loop-reference.cpp"],
  [("classifyQualType", "src/TypeUtils.cpp")],
  obs=["warnings per parameter"])

p("C17", "Rule-of-three, rule-of-two and slicing verdicts follow the special members",
  "For every non-template class definition: rule-of-three warns for a non-polymorphic class exactly when some but not all of destructor, copy constructor and copy assignment are user-provided, naming exactly the present and the missing ones, except: the destructor is user-provided and a copy operation is deleted (explicitly or implicitly through members, bases or move operations); only the destructor is user-provided and it is protected or has an empty or no visible body; the destructor is not user-provided and is explicitly defaulted or the class derives from QSharedData; the class has a QSharedDataPointer member; its name ends with Private and the file with .cpp, .cxx or _p.h. "
  "copyable-polymorphic warns exactly for polymorphic classes with a public copy operation (declared or implicit, not deleted) which are not both final and without ancestors with a public copy operation. "
  "rule-of-two-soft warns exactly where a copy assignment (operator syntax) that is trivial and not explicitly defaulted is called and the copy constructor is non-trivial, or a copy constructor is called that is trivial and not explicitly defaulted and the copy assignment is non-trivial (a deleted sibling is left open).",
  ["programs"],
  "every combination of {absent, user-provided, empty, defaulted, deleted} times access for each special member, times virtual/final/base/field variations",
  "tests sample a dozen classes of several thousand combinations",
  ["src/checks/level2/rule-of-three.cpp", "src/checks/level1/rule-of-two-soft.cpp", "src/checks/level2/copyable-polymorphic.cpp", "src/checks/ruleofbase.cpp", "src/Utils.cpp"],
  [("special member classification", "src/Utils.cpp")],
  obs=["warnings per class"])

p("C18", "virtual-call-ctor finds every path to a pure virtual call",
  "For every non-template class and every call graph among its member functions, the check warns for a constructor or destructor with a body exactly when a pure virtual method declared in the class is reachable from that body through direct calls on this (f() or this->f(), anywhere in a statement) to methods with visible bodies, and terminates for recursive graphs; calls in lambdas, on other objects, through pointers or to virtual methods which are not pure do not count. It reports once, at the definition of the constructor or destructor (in CTOR or in DTOR), together with one note \"Called here\" at the first call in its body which leads there.",
  ["programs"],
  "all call graphs over a constructor, a destructor, up to three member functions and a pure virtual one, including cycles, in every definition order",
  "tests contain straight chains; cycles, shared callees and definition order are not sampled",
  ["src/checks/level2/virtual-call-ctor.cpp"],
  [("containsVirtualCall with a processed list", "src/checks/level2/virtual-call-ctor.cpp")],
  obs=["warnings per constructor/destructor"])

p("C19", "Class-hierarchy checks see the whole hierarchy",
  "For every class hierarchy: overridden-signal warns for a method exactly when the nearest direct or indirect QObject base class with a method of the same name and parameter types (typedefs and const of the parameter itself ignored) exists and at least one of the two is a signal, naming which is which; overloaded-signal warns for a signal for each class among its own and its QObject bases that has another method of that name with different parameter types (with the place of the other one if it is a base); virtual-signal warns exactly for virtual signals which do not directly override a method of a class that is no QObject; skipped-base-method warns for a qualified call Base::m() on this (written or implicit), once for each class between Base and the caller's class that implements a non-pure m with the same parameter types. Static methods, overloads that differ in const only and repeated bases are left open.",
  ["programs"],
  "every single-inheritance chain of up to four classes with each class independently declaring the method as plain, slot, signal or not at all, with matching or different parameters",
  "tests contain depth-two chains",
  ["src/checks/level1/overridden-signal.cpp", "src/checks/level0/overloaded-signal.cpp", "src/checks/level1/virtual-signal.cpp", "src/checks/level1/skipped-base-method.cpp", "src/QtUtils.cpp"],
  [("base walk", "src/QtUtils.cpp")],
  obs=["warnings per method/call"])

p("C20", "connect() checks classify every argument form",
  'For every combination of QObject::connect overload with a pointer to member function as signal, form of sender and receiver, form of the signal argument (signal, slot or plain method; directly, in parentheses, through qOverload/QOverload/qConstOverload/static_cast/C cast or a local variable), form of the slot (member function, lambda, function, functor, std::function, std::bind) and connection type: connect-non-signal warns exactly if the method is not a signal; lambda-unique-connection exactly if the type contains Qt::UniqueConnection and the slot is not a pointer to a non-static member function; connect-3arg-lambda exactly if a lambda is connected without context object and uses this or another object than the sender (likewise for QTimer::singleShot and QMenu::addAction with a callable and no context object); lambda-in-connect once for every local variable which the lambda captures by reference, unless sender or receiver is a variable that is not a pointer, or the captured variable is the receiver. Smart pointers as senders, nested lambdas, parameters of member function pointer type, captured parameters and old-style connects are left open.',
  ["programs"],
  "the full cross product of argument forms for QObject::connect and QTimer::singleShot, with captures by reference/value/this of locals, statics, members and parameters",
  "tests list individual connects",
  ["src/checks/level0/connect-non-signal.cpp", "src/checks/level1/connect-3arg-lambda.cpp", "src/checks/level0/lambda-unique-connection.cpp", "src/checks/level0/lambda-in-connect.cpp", "src/checks/level2/old-style-connect.cpp", "src/QtUtils.cpp"],
  [("isConnect/connectHasPMFStyle/pmfFromConnect", "src/QtUtils.cpp")],
  obs=["warnings per connect line"])

p("C21", "unexpected-flag-enumerator-value flags exactly the odd ones out",
  "An enumeration is taken for flags if it has a name, at least four enumerators, all of them with explicit initialisers, its first four values are not consecutive, and at least half of the values are powers of two. In a flag enumeration the check warns exactly for the enumerators with a positive value that is not a power of two, is not a run of three or more one bits (possibly shifted), whose name does not contain mask (in any case) and whose initialiser neither is a (possibly converted) reference to another enumerator or constant nor contains a binary operator; each once, at the initialiser, with the value. It never warns for other enumerations, whatever the underlying type, the scope or the kind of declaration.",
  ["inputs"],
  "every enumeration of four to seven enumerators over a small value domain and initializer forms",
  "tests list a handful of enums",
  ["src/checks/manuallevel/unexpected-flag-enumerator-value.cpp"],
  [("isFlagEnumeration heuristics", "src/checks/manuallevel/unexpected-flag-enumerator-value.cpp")],
  obs=["warnings per enumerator"])

p("C22", "jni-signatures accepts exactly well-formed JNI names and signatures",
  "For every string literal passed directly as class name, method name, method signature or constructor signature to a QAndroidJniObject constructor, callMethod, callObjectMethod, callStaticMethod or callStaticObjectMethod, the check warns if and only if the literal is not of the form the JNI specification requires for that position (identifiers of ASCII letters, digits, underscore and dollar sign which do not start with a digit; class names with / separators; signatures of parenthesised descriptors B C D F I J S Z, L<class>; and [<type>, followed by one descriptor or V), once, naming the literal and the position; it terminates without crashing for literals of every length. Other functions of QAndroidJniObject and other classes never warn.",
  ["inputs"],
  "every string up to a length over the signature alphabet, at every argument position of every supported call",
  "tests contain about thirty strings; the check is a regular expression over an infinite language",
  ["src/checks/manuallevel/jnisignatures.cpp"],
  [("signature regular expressions", "src/checks/manuallevel/jnisignatures.cpp")],
  obs=["warnings per call"])

p("C23", "ifndef-define-typo warns exactly for near-miss include guards",
  "After #ifndef A (A not defined), every #define B or defined(B), up to the definition of A itself or another conditional directive, is compared with A: the check warns exactly when B has at least four characters and the Levenshtein distance of A and B is 1 or 2, naming both, at that place; never for distinct names, for A itself, or after another directive ended the search (and never for the guard Q_CONSTRUCTOR_FUNCTION).",
  ["inputs"],
  "all pairs of short macro names within edit distance 0..3 and beyond, with every intervening directive",
  "tests contain one pair per case",
  ["src/checks/manuallevel/ifndef-define-typo.cpp", "src/checks/manuallevel/levenshteindistance.h"],
  [("levenshtein distance", "src/checks/manuallevel/levenshteindistance.h")],
  obs=["warnings per define"])

p("C24", "Q_PROPERTY checks read the declaration as moc does",
  "For every Q_PROPERTY(type name attributes...) after the Q_OBJECT or Q_GADGET macro of a top level class or class in a namespace, whatever the order of the attributes and the white space between the words: qproperty-without-notify warns exactly when the class has Q_OBJECT and the property has READ, but neither NOTIFY nor CONSTANT (as attributes, not as parts of names). "
  "qproperty-type-mismatch warns exactly for each MEMBER, READ result, first WRITE parameter and first NOTIFY parameter whose type differs from the declared type as the compiler sees it, apart from const, references and the spelling of scopes and typedefs. Contradictory attributes (WRITE with CONSTANT), comments within the declaration, and types which differ only in their scope or in default template arguments are not covered.",
  ["inputs", "programs"],
  "every subset and order of property attributes, layouts over several lines, types and accessor signatures up to a bound",
  "tests contain individual declarations; the text is tokenised by hand",
  ["src/checks/level1/qproperty-without-notify.cpp", "src/checks/manuallevel/qproperty-type-mismatch.cpp"],
  [("Q_PROPERTY text parsing", "src/checks/manuallevel/qproperty-type-mismatch.cpp")],
  obs=["warnings per property"])

p("C25", "fully-qualified-moc-types reports exactly unqualified moc-visible types",
  "For every signal, slot and invokable method (its parameters, and its result unless it is a signal) and every property of a Q_GADGET whose moc output is included: the check warns exactly when the type, a type it points to, or one of its template arguments is a class, enumeration or class member typedef and is written without its full scope. Types written with their full scope, built-in types, types of the global namespace and template parameters never warn, whatever the const, reference and pointer modifiers and the nesting of templates. "
  "The edit replaces what is written by the same type, fully qualified: it compiles and is not reported again. Names with a leading :: and typedefs of built-in types are not covered.",
  ["programs"],
  "every scope structure (global, namespace, nested namespace, class, anonymous) times every spelling (unqualified, partially, fully qualified, typedef, using) times type form (value, const reference, pointer, template argument, enum)",
  "tests sample spellings",
  ["src/checks/level0/fully-qualified-moc-types.cpp"],
  [("typeIsFullyQualified", "src/checks/level0/fully-qualified-moc-types.cpp")],
  obs=["warnings and fixed text"])

p("C26", "wrong-qevent-cast knows which class belongs to which event type",
  "For every QEvent::Type X with a documented event class and every class C derived from QEvent (or QEvent itself): a static_cast of a QEvent variable (pointer or reference) to C, inside the statement labelled by `case QEvent::X` of a switch on type() of that same variable, warns \"Cast from a QEvent::X event to C looks suspicious.\" exactly when C is neither the event class Qt documents for X nor one of that class' bases. The innermost such case counts; casts of another variable, casts outside of such a case, and other kinds of switch never warn.",
  ["programs"],
  "every enumerator of QEvent::Type times every QEvent subclass times forms of casts, variables, nestings of switches, ifs and loops",
  "tests list a handful of pairs out of several thousand",
  ["src/checks/level0/wrong-qevent-cast.cpp"],
  [("event type table", "src/checks/level0/wrong-qevent-cast.cpp")],
  obs=["warnings per cast"])

p("C27", "Container-key checks see the key type however it is spelled",
  'qmap-with-pointer-key, qhash-with-char-pointer-key and mutable-container-key warn exactly for variables (local, global, static members) and by-value parameters whose type is, respectively: a QMap whose key is any pointer; a QHash whose key is a pointer to char, signed char or unsigned char; a QMap or QHash whose key is a QPointer, QWeakPointer, std::weak_ptr or QPersistentModelIndex. It makes no difference how the type is spelled (typedef, alias, alias template, auto, decltype, cv-qualifiers, namespaces) nor what the value type is. Data members, references, pointers to such containers and containers of containers are left open.',
  ["programs"],
  "every container times key type times spelling (direct, typedef, using, const, reference, nested in another container, derived class) times declaration kind",
  "tests list a few declarations",
  ["src/checks/level0/qmap-with-pointer-key.cpp", "src/checks/manuallevel/qhash-with-char-pointer-key.cpp", "src/checks/level0/mutable-container-key.cpp", "src/TemplateUtils.cpp"],
  [("template argument inspection", "src/TemplateUtils.cpp")],
  obs=["warnings per declaration"])

p("C28", "QString literal checks depend on the literal and call only",
  "In every expression position: qlatin1string-non-ascii warns exactly when QLatin1String is constructed from a literal with non-ASCII characters (directly or as an operand of ?:); empty-qstringliteral exactly for QStringLiteral of an empty literal; qstring-left exactly for QString::left() with an argument whose value is the literal 0 or 1; qstring-insensitive-allocation exactly for toLower() or toUpper() of a QString directly followed by contains, compare, startsWith or endsWith; "
  "qstring-arg warns once for every run of two or more chained arg() calls whose arguments are only strings, at most nine in total, and its edit passes them to a single call in the same order; with its option qstring-arg-fillChar-overloads, also for every arg(value, fieldWidth...) call whose fieldWidth argument (and base argument, if any) is neither a literal nor named like a width (base); and for QLatin1String::arg() with an integer (Qt 5). Literals with embedded NUL and u8 or _L1 literals are not covered.",
  ["programs"],
  "every literal of a small alphabet (ASCII boundary characters, escapes, empty, concatenated) times call form times position; every .arg() chain up to a length over argument kinds",
  "tests list individual expressions",
  ["src/checks/level1/qlatin1string-non-ascii.cpp", "src/checks/level0/empty-qstringliteral.cpp", "src/checks/level0/qstring-arg.cpp", "src/checks/level0/qstring-insensitive-allocation.cpp", "src/checks/level1/qstring-left.cpp", "src/Utils.cpp"],
  [("literal inspection", "src/Utils.cpp"), ("callListForChain", "src/Utils.cpp")],
  obs=["warnings per line"])

p("C31", "Concurrent analyses in one process are independent",
  "When a host process analyses several translation units on several threads with the plugin, each analysis yields the diagnostics it yields alone, for every interleaving.",
  ["schedules"],
  "all interleavings of two analyses at the granularity of the plugin's entry points (argument parsing, consumer creation, preprocessing, traversal, tear-down) up to a preemption bound",
  "no test runs two analyses in one process",
  ["src/Clazy.cpp", "src/checkmanager.h", "src/ClazyContext.cpp", "src/FixItExporter.cpp"],
  [("CheckManager::lock", "src/checkmanager.h")],
  [("CheckManager singleton and function statics", "shared between threads", "src/checkmanager.cpp")],
  ["diagnostics per analysis"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
