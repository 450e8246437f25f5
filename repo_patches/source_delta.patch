From 789bfb32500d1901fefa82a2ce1e85fe7668fd41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:55 +0000
Subject: [PATCH 01/70] fix: NOLINT and NOLINTNEXTLINE suppress every warning
 of the line

The line was dropped from the set after the first suppressed warning, so a second warning on it was reported.
---
 src/SuppressionManager.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/SuppressionManager.cpp b/src/SuppressionManager.cpp
index 7a6d9f2..136ca40 100644
--- a/src/SuppressionManager.cpp
+++ b/src/SuppressionManager.cpp
@@ -104,7 +104,6 @@ bool SuppressionManager::isSuppressed(const std::string &checkName,
 
     const LineNumber lineNumber = sm.getSpellingLineNumber(loc);
     if (suppressions.skipNextLine.count(lineNumber) > 0) {
-        suppressions.skipNextLine.erase(lineNumber);
         return true;
     }
     if (suppressions.checksToSkipByLine.find(LineAndCheckName(lineNumber, checkName)) != suppressions.checksToSkipByLine.cend())
-- 
2.43.0


From 897ec82547a9dd9797e02c91acfccc183849161d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:55 +0000
Subject: [PATCH 02/70] fix: honour every check listed in NOLINT(...) and
 NOLINTNEXTLINE(...)

Only the first check of the list was kept per line, and a list hid an enclosing NOLINTBEGIN/NOLINTEND range.
---
 src/SuppressionManager.cpp | 7 +++++--
 src/SuppressionManager.h   | 2 +-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/SuppressionManager.cpp b/src/SuppressionManager.cpp
index 136ca40..f148dfc 100644
--- a/src/SuppressionManager.cpp
+++ b/src/SuppressionManager.cpp
@@ -109,8 +109,11 @@ bool SuppressionManager::isSuppressed(const std::string &checkName,
     if (suppressions.checksToSkipByLine.find(LineAndCheckName(lineNumber, checkName)) != suppressions.checksToSkipByLine.cend())
         return true;
 
-    if (auto it = suppressions.checkWildcardsToSkipByLine.find(lineNumber); it != suppressions.checkWildcardsToSkipByLine.end()) {
-        return it->second.match(checkName);
+    const auto [wildcardsBegin, wildcardsEnd] = suppressions.checkWildcardsToSkipByLine.equal_range(lineNumber);
+    if (std::any_of(wildcardsBegin, wildcardsEnd, [&checkName](const auto &lineAndWildcard) {
+            return lineAndWildcard.second.match(checkName);
+        })) {
+        return true;
     }
 
     for (const auto &rangeSuppression : suppressions.checkWildcardsRanges) {
diff --git a/src/SuppressionManager.h b/src/SuppressionManager.h
index 0106a01..089733a 100644
--- a/src/SuppressionManager.h
+++ b/src/SuppressionManager.h
@@ -45,7 +45,7 @@ public:
         std::set<unsigned> skipNextLine;
         std::set<CheckName> checksToSkip;
         std::set<LineAndCheckName> checksToSkipByLine;
-        std::unordered_map<LineNumber, llvm::Regex> checkWildcardsToSkipByLine;
+        std::unordered_multimap<LineNumber, llvm::Regex> checkWildcardsToSkipByLine;
         std::vector<CheckBeginAndEnd> checkWildcardsRanges;
     };
 
-- 
2.43.0


From 3f4a314f3b48dde9e4b9f3ba9bf28bf78fe9e05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:55 +0000
Subject: [PATCH 03/70] fix: allow whitespace before a check name in
 NOLINT(...) lists

The Changelog documents NOLINTNEXTLINE(clazy-qfileinfo-exists, clazy-qstring-arg), whose second name was ignored.
---
 src/SuppressionManager.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/SuppressionManager.cpp b/src/SuppressionManager.cpp
index f148dfc..2bebd3c 100644
--- a/src/SuppressionManager.cpp
+++ b/src/SuppressionManager.cpp
@@ -54,8 +54,8 @@ static std::vector<llvm::Regex> splitDisabledChecksText(const std::string &disab
 {
     std::vector<llvm::Regex> disabledChecksRegexes;
     for (const auto &split : clazy::splitString(disableText, ',')) {
-        if (split.find("clazy-") == 0) {
-            StringRef sanitizedCheckName = llvm::StringRef(split).substr(strlen("clazy-")).rtrim();
+        StringRef sanitizedCheckName = llvm::StringRef(split).trim();
+        if (sanitizedCheckName.consume_front("clazy-")) {
             disabledChecksRegexes.push_back(createRegexFromGlob(sanitizedCheckName));
         }
     }
-- 
2.43.0


From e6bd1170b55bc23e587a00ff5144785abf16d9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:55 +0000
Subject: [PATCH 04/70] fix: consider every NOLINTBEGIN/NOLINTEND range around
 a line

The first range that contained the line decided, so nested ranges with other checks were ignored.
---
 src/SuppressionManager.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/SuppressionManager.cpp b/src/SuppressionManager.cpp
index 2bebd3c..df2a7e1 100644
--- a/src/SuppressionManager.cpp
+++ b/src/SuppressionManager.cpp
@@ -118,10 +118,12 @@ bool SuppressionManager::isSuppressed(const std::string &checkName,
 
     for (const auto &rangeSuppression : suppressions.checkWildcardsRanges) {
         if (rangeSuppression.begin <= lineNumber && rangeSuppression.end >= lineNumber) {
-            return rangeSuppression.checksToSkipWildcard.empty()
+            if (rangeSuppression.checksToSkipWildcard.empty()
                 || std::ranges::any_of(rangeSuppression.checksToSkipWildcard, [&checkName](const llvm::Regex &regex) {
                        return regex.match(checkName);
-                   });
+                   })) {
+                return true;
+            }
         }
     }
 
-- 
2.43.0


From 7d0ea6c5ca1fb771da4fcc2ea164b2fcbccbcf5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:55 +0000
Subject: [PATCH 05/70] fix: NOLINTBEGIN(...) without clazy checks must not
 suppress clazy warnings

---
 src/SuppressionManager.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/SuppressionManager.cpp b/src/SuppressionManager.cpp
index df2a7e1..a648cf6 100644
--- a/src/SuppressionManager.cpp
+++ b/src/SuppressionManager.cpp
@@ -176,7 +176,11 @@ void SuppressionManager::parseFile(FileID id, const SourceManager &sm, const cla
                 } else {
                     const auto [beginLineNumber, disabledChecks] = checkRangeStack.top();
                     checkRangeStack.pop();
-                    suppressions.checkWildcardsRanges.push_back(CheckBeginAndEnd{splitDisabledChecksText(disabledChecks), beginLineNumber, lineNumber});
+                    auto wildcards = splitDisabledChecksText(disabledChecks);
+                    // An empty list stands for all checks, ignore ranges which only list checks that are not from clazy
+                    if (disabledChecks.empty() || !wildcards.empty()) {
+                        suppressions.checkWildcardsRanges.push_back(CheckBeginAndEnd{std::move(wildcards), beginLineNumber, lineNumber});
+                    }
                 }
 
             } else {
-- 
2.43.0


From cd1dcaaabefb407e9130bd76dc1deaafd0c6ce8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:55 +0000
Subject: [PATCH 06/70] fix: honour suppression comments at the end of a file
 without trailing newline

---
 src/SuppressionManager.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/SuppressionManager.cpp b/src/SuppressionManager.cpp
index a648cf6..e9a4796 100644
--- a/src/SuppressionManager.cpp
+++ b/src/SuppressionManager.cpp
@@ -150,7 +150,10 @@ void SuppressionManager::parseFile(FileID id, const SourceManager &sm, const cla
     std::stack<std::pair<LineNumber, std::string>> checkRangeStack;
 
     Token token;
-    while (!lexer.LexFromRawLexer(token)) {
+    bool atEnd = false;
+    while (!atEnd) {
+        // Returns true if the lexed token was the last one, it can still be a comment
+        atEnd = lexer.LexFromRawLexer(token);
         if (token.getKind() != tok::comment) {
             continue;
         }
-- 
2.43.0


From 3bd35e3ee5283bb474e379615c53bcd8c01417cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:13 +0000
Subject: [PATCH 07/70] fix: never warn in system headers

Checks which are driven by preprocessor callbacks or AST matchers do not go through the visitor that skips them.
---
 src/checkbase.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/checkbase.cpp b/src/checkbase.cpp
index f353df4..c23d90a 100644
--- a/src/checkbase.cpp
+++ b/src/checkbase.cpp
@@ -227,6 +227,10 @@ void CheckBase::emitWarning(clang::SourceLocation loc, std::string error, const
         return;
     }
 
+    if (loc.isValid() && sm().isInSystemHeader(loc)) {
+        return; // The visitors skip system headers, but preprocessor callbacks and AST matchers don't
+    }
+
     if (m_context->shouldIgnoreFile(loc)) {
         return;
     }
-- 
2.43.0


From cd5c1d77c6034ca21471dda00ba5b5ed30adcce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:13 +0000
Subject: [PATCH 08/70] fix: honour ignore-included-files for checks based on
 AST matchers

They do not go through the visitor that skips the included files.
---
 src/checkbase.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/checkbase.cpp b/src/checkbase.cpp
index c23d90a..f63ce3e 100644
--- a/src/checkbase.cpp
+++ b/src/checkbase.cpp
@@ -235,6 +235,10 @@ void CheckBase::emitWarning(clang::SourceLocation loc, std::string error, const
         return;
     }
 
+    if (m_context->ignoresIncludedFiles() && canIgnoreIncludes() && !Utils::isMainFile(sm(), loc)) {
+        return; // The visitors skip included files, but AST matchers don't
+    }
+
     if (!m_context->passesLineFilter(loc)) {
         return;
     }
-- 
2.43.0


From ffacc8fe5a8cf258d195b9e7c5f7975281c00965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:13 +0000
Subject: [PATCH 09/70] fix: decide for each translation unit whether it is a
 Qt file

The answer for the first translation unit of the process was reused for all the others.
---
 src/ClazyContext.cpp | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/ClazyContext.cpp b/src/ClazyContext.cpp
index c870795..78c6853 100644
--- a/src/ClazyContext.cpp
+++ b/src/ClazyContext.cpp
@@ -171,16 +171,12 @@ void ClazyContext::registerPreprocessorCallbacks(clang::Preprocessor &pp)
 
 bool ClazyContext::isQt() const
 {
-    static const bool s_isQt = [this] {
-        for (const auto &s : m_pp.Macros) {
-            if (s.first == "QT_CORE_LIB") {
-                return true;
-            }
+    for (const auto &s : m_pp.Macros) {
+        if (s.first == "QT_CORE_LIB") {
+            return true;
         }
-        return false;
-    }();
-
-    return s_isQt;
+    }
+    return false;
 }
 std::string ClazyContext::qtNamespace() const
 {
-- 
2.43.0


From f63e3392ce3d0c266d9250d78a08f6caa8cdae2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:13 +0000
Subject: [PATCH 10/70] fix: honour only-qt for checks based on preprocessor
 callbacks

---
 src/checkbase.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/checkbase.cpp b/src/checkbase.cpp
index f63ce3e..de94876 100644
--- a/src/checkbase.cpp
+++ b/src/checkbase.cpp
@@ -235,6 +235,10 @@ void CheckBase::emitWarning(clang::SourceLocation loc, std::string error, const
         return;
     }
 
+    if ((m_context->options & ClazyContext::ClazyOption_OnlyQt) && !m_context->isQt()) {
+        return; // The AST isn't visited, but preprocessor callbacks are
+    }
+
     if (m_context->ignoresIncludedFiles() && canIgnoreIncludes() && !Utils::isMainFile(sm(), loc)) {
         return; // The visitors skip included files, but AST matchers don't
     }
-- 
2.43.0


From d097fb53517b5b079f3e4fe7490c4ed86d1c9c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:52 +0000
Subject: [PATCH 11/70] fix: report every finding when warnings are errors

An error that clazy itself reported before the first statement was visited was taken for a compiler error, and the rest of the translation unit was not analysed.
---
 src/ClazyContext.cpp     | 13 +++++++++++++
 src/ClazyContext.h       | 17 +++++++++++++++++
 src/ClazyVisitHelper.cpp |  2 +-
 src/checkbase.cpp        |  2 +-
 4 files changed, 32 insertions(+), 2 deletions(-)

diff --git a/src/ClazyContext.cpp b/src/ClazyContext.cpp
index 78c6853..b01730e 100644
--- a/src/ClazyContext.cpp
+++ b/src/ClazyContext.cpp
@@ -110,6 +110,8 @@ ClazyContext::ClazyContext(clang::ASTContext *context,
         }
     }))
     , m_isClangTidy(isClangTidy)
+    , m_errorTrap(manager.getDiagnostics())
+    , m_compilerErrorOccurred(manager.getDiagnostics().hasUnrecoverableErrorOccurred())
 {
     if (!headerFilter.empty()) {
         headerFilterRegex = std::make_unique<llvm::Regex>(headerFilter);
@@ -169,6 +171,17 @@ void ClazyContext::registerPreprocessorCallbacks(clang::Preprocessor &pp)
     }
 }
 
+void ClazyContext::reportWarning(const std::string &checkName,
+                                 const clang::SourceLocation &loc,
+                                 clang::DiagnosticIDs::Level level,
+                                 const std::string &error,
+                                 const std::vector<clang::FixItHint> &fixits) const
+{
+    m_compilerErrorOccurred = compilerErrorOccurred();
+    p_warningReporter(checkName, loc, level, error, fixits);
+    m_errorTrap.reset();
+}
+
 bool ClazyContext::isQt() const
 {
     for (const auto &s : m_pp.Macros) {
diff --git a/src/ClazyContext.h b/src/ClazyContext.h
index d532e2a..ed16e96 100644
--- a/src/ClazyContext.h
+++ b/src/ClazyContext.h
@@ -180,6 +180,19 @@ public:
 
     bool isQt() const;
 
+    /// Reports a warning of the check @p checkName
+    void reportWarning(const std::string &checkName,
+                       const clang::SourceLocation &loc,
+                       clang::DiagnosticIDs::Level level,
+                       const std::string &error,
+                       const std::vector<clang::FixItHint> &fixits) const;
+
+    /// Returns whether there were compiler errors. The errors clazy itself reported are not taken into account, they say nothing about the AST.
+    bool compilerErrorOccurred() const
+    {
+        return m_compilerErrorOccurred || m_errorTrap.hasUnrecoverableErrorOccurred();
+    }
+
     std::string qtNamespace() const;
 
     /**
@@ -210,6 +223,10 @@ public:
     const WarningReporter p_warningReporter;
 
     const bool m_isClangTidy;
+
+private:
+    mutable clang::DiagnosticErrorTrap m_errorTrap;
+    mutable bool m_compilerErrorOccurred;
 };
 
 #endif
diff --git a/src/ClazyVisitHelper.cpp b/src/ClazyVisitHelper.cpp
index d263a27..a1e2085 100644
--- a/src/ClazyVisitHelper.cpp
+++ b/src/ClazyVisitHelper.cpp
@@ -57,7 +57,7 @@ bool VisitStmt(Stmt *stmt, ClazyContext *context, const Visitors &visitors)
     }
 
     if (!context->parentMap) {
-        if (context->astContext->getDiagnostics().hasUnrecoverableErrorOccurred()) {
+        if (context->compilerErrorOccurred()) {
             return false; // ParentMap sometimes crashes when there were errors. Doesn't like a botched AST.
         }
 
diff --git a/src/checkbase.cpp b/src/checkbase.cpp
index de94876..071134c 100644
--- a/src/checkbase.cpp
+++ b/src/checkbase.cpp
@@ -284,7 +284,7 @@ void CheckBase::reallyEmitWarning(clang::SourceLocation loc, const std::string &
         ? DiagnosticIDs::Error
         : DiagnosticIDs::Warning;
 
-    m_context->p_warningReporter(name(), loc, severity, error, fixits);
+    m_context->reportWarning(name(), loc, severity, error, fixits);
 }
 
 void CheckBase::queueManualFixitWarning(clang::SourceLocation loc, const std::string &message)
-- 
2.43.0


From 9aebc14400883bbd34ebb1caeb7102e6c5fa8a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:23 +0000
Subject: [PATCH 12/70] fix: do not carry reserve-candidates state over to
 other translation units

---
 src/checks/manuallevel/reserve-candidates.cpp | 12 +++++-------
 src/checks/manuallevel/reserve-candidates.h   |  2 ++
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/checks/manuallevel/reserve-candidates.cpp b/src/checks/manuallevel/reserve-candidates.cpp
index 7950c4e..ad9496c 100644
--- a/src/checks/manuallevel/reserve-candidates.cpp
+++ b/src/checks/manuallevel/reserve-candidates.cpp
@@ -298,13 +298,11 @@ bool ReserveCandidates::isInComplexLoop(clang::Stmt *s, SourceLocation declLocat
     int forCount = 0;
     int foreachCount = 0;
 
-    static std::vector<unsigned int> nonComplexOnesCache;
-    static std::vector<unsigned int> complexOnesCache;
     auto rawLoc = s->getBeginLoc().getRawEncoding();
 
     // For some reason we generate two warnings on some foreaches, so cache the ones we processed
     // and return true so we don't trigger a warning
-    if (clazy::contains(nonComplexOnesCache, rawLoc) || clazy::contains(complexOnesCache, rawLoc)) {
+    if (clazy::contains(m_nonComplexOnesCache, rawLoc) || clazy::contains(m_complexOnesCache, rawLoc)) {
         return true;
     }
 
@@ -313,13 +311,13 @@ bool ReserveCandidates::isInComplexLoop(clang::Stmt *s, SourceLocation declLocat
     while ((parent = clazy::parent(m_context->parentMap, parent))) {
         const SourceLocation parentStart = parent->getBeginLoc();
         if (!isMemberVariable && sm().isBeforeInSLocAddrSpace(parentStart, declLocation)) {
-            nonComplexOnesCache.push_back(rawLoc);
+            m_nonComplexOnesCache.push_back(rawLoc);
             return false;
         }
 
         bool isLoop = false;
         if (loopIsComplex(parent, isLoop)) {
-            complexOnesCache.push_back(rawLoc);
+            m_complexOnesCache.push_back(rawLoc);
             return true;
         }
 
@@ -338,11 +336,11 @@ bool ReserveCandidates::isInComplexLoop(clang::Stmt *s, SourceLocation declLocat
         }
 
         if (foreachCount > 1 || forCount > 1) { // two foreaches are almost always a false-positve
-            complexOnesCache.push_back(rawLoc);
+            m_complexOnesCache.push_back(rawLoc);
             return true;
         }
     }
 
-    nonComplexOnesCache.push_back(rawLoc);
+    m_nonComplexOnesCache.push_back(rawLoc);
     return false;
 }
diff --git a/src/checks/manuallevel/reserve-candidates.h b/src/checks/manuallevel/reserve-candidates.h
index d693c7b..49516db 100644
--- a/src/checks/manuallevel/reserve-candidates.h
+++ b/src/checks/manuallevel/reserve-candidates.h
@@ -48,6 +48,8 @@ private:
     bool isCandidate(clang::CallExpr *oper);
 
     std::vector<clang::ValueDecl *> m_foundReserves;
+    mutable std::vector<unsigned int> m_nonComplexOnesCache;
+    mutable std::vector<unsigned int> m_complexOnesCache;
 };
 
 #endif
-- 
2.43.0


From daddf285f753fd838578627bbee39d3e5ebf5500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:23 +0000
Subject: [PATCH 13/70] fix: run clazy checks for every file clang-tidy is
 given

---
 src/ClazyClangTidyModule.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ClazyClangTidyModule.cpp b/src/ClazyClangTidyModule.cpp
index 1573384..769b0e4 100644
--- a/src/ClazyClangTidyModule.cpp
+++ b/src/ClazyClangTidyModule.cpp
@@ -71,6 +71,9 @@ public:
         }
         m_allChecks.clear();
         delete clazyContext;
+
+        // All checks of a translation unit are destroyed before the ones of the next translation unit are created
+        s_enabledChecks.clear();
     }
 
     void registerMatchers(ast_matchers::MatchFinder *Finder) override
-- 
2.43.0


From f54abcd8c91a3adc53cda4313b923c62fe4fda31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:56 +0000
Subject: [PATCH 14/70] fix: do not use the receiver of an earlier connect in
 old-style-connect

---
 src/checks/level2/old-style-connect.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/checks/level2/old-style-connect.cpp b/src/checks/level2/old-style-connect.cpp
index 7461a27..9210047 100644
--- a/src/checks/level2/old-style-connect.cpp
+++ b/src/checks/level2/old-style-connect.cpp
@@ -331,9 +331,9 @@ std::vector<FixItHint> OldStyleConnect::fixits(int classification, T *callOrCtor
     std::string implicitCallee;
     std::string macroName;
     CXXMethodDecl *senderMethod = nullptr;
+    const CXXRecordDecl *lastRecordDecl = nullptr;
     for (auto arg : callOrCtor->arguments()) {
         SourceLocation s = arg->getBeginLoc();
-        static const CXXRecordDecl *lastRecordDecl = nullptr;
         if (isSignalOrSlot(s, macroName)) {
             macroNum++;
             if (!lastRecordDecl && (classification & ConnectFlag_4ArgsConnect)) {
-- 
2.43.0


From 5963710af1daf6b8cba7d1043faa93bdd9931f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:17 +0000
Subject: [PATCH 15/70] fix: export the fixes of clazy-standalone at the end of
 the run, whatever happened to single files

---
 src/ClazyContext.cpp        | 10 +++-------
 src/ClazyStandaloneMain.cpp |  9 ++++++++-
 src/FixItExporter.cpp       | 10 +++++++---
 src/FixItExporter.h         |  3 +++
 4 files changed, 21 insertions(+), 11 deletions(-)

diff --git a/src/ClazyContext.cpp b/src/ClazyContext.cpp
index b01730e..140cb3f 100644
--- a/src/ClazyContext.cpp
+++ b/src/ClazyContext.cpp
@@ -144,15 +144,11 @@ ClazyContext::~ClazyContext()
     delete accessSpecifierManager;
     delete parentMap;
 
-    static unsigned long count = 0;
-    count++;
-
     if (exporter) {
-        // With clazy-standalone we use the same YAML file for all translation-units, so only
-        // write out the last one. With clazy-plugin there's a YAML file per translation unit.
+        // With clazy-standalone we use the same YAML file for all translation-units, clazy-standalone
+        // writes it at the end. With clazy-plugin there's a YAML file per translation unit.
         const bool isClazyPlugin = m_translationUnitPaths.empty();
-        const bool isLast = count == m_translationUnitPaths.size();
-        if (isLast || isClazyPlugin) {
+        if (isClazyPlugin) {
             exporter->Export();
         }
         delete exporter;
diff --git a/src/ClazyStandaloneMain.cpp b/src/ClazyStandaloneMain.cpp
index 88c46b3..fe1bf2e 100644
--- a/src/ClazyStandaloneMain.cpp
+++ b/src/ClazyStandaloneMain.cpp
@@ -8,6 +8,7 @@
 
 #include "Clazy.h"
 #include "ClazyContext.h"
+#include "FixItExporter.h"
 
 #include "checks.json.h"
 
@@ -223,5 +224,11 @@ int main(int argc, const char **argv)
 
     ClangTool tool(optionsParser.getCompilations(), optionsParser.getSourcePathList(), std::make_shared<PCHContainerOperations>(), fs);
 
-    return tool.run(new ClazyToolActionFactory(optionsParser.getSourcePathList()));
+    const int result = tool.run(new ClazyToolActionFactory(optionsParser.getSourcePathList()));
+
+    if (!s_exportFixes.getValue().empty()) {
+        FixItExporter::ExportTo(s_exportFixes.getValue());
+    }
+
+    return result;
 }
diff --git a/src/FixItExporter.cpp b/src/FixItExporter.cpp
index 2e5fe40..1a1387c 100644
--- a/src/FixItExporter.cpp
+++ b/src/FixItExporter.cpp
@@ -177,10 +177,14 @@ void FixItExporter::HandleDiagnostic(DiagnosticsEngine::Level DiagLevel, const D
 
 void FixItExporter::Export()
 {
-    auto tuDiag = getTuDiag();
-    if (!tuDiag.Diagnostics.empty()) {
+    ExportTo(exportFixes);
+}
+
+void FixItExporter::ExportTo(const std::string &fileName)
+{
+    if (!getTuDiag().Diagnostics.empty()) {
         std::error_code EC;
-        llvm::raw_fd_ostream OS(exportFixes, EC, llvm::sys::fs::OF_None);
+        llvm::raw_fd_ostream OS(fileName, EC, llvm::sys::fs::OF_None);
         llvm::yaml::Output YAML(OS);
         YAML << getTuDiag();
     }
diff --git a/src/FixItExporter.h b/src/FixItExporter.h
index 7ac084b..35c2a23 100644
--- a/src/FixItExporter.h
+++ b/src/FixItExporter.h
@@ -36,6 +36,9 @@ public:
 
     void Export();
 
+    /// Writes everything recorded so far to @p fileName, nothing if there are no diagnostics.
+    static void ExportTo(const std::string &fileName);
+
     /// Emit a diagnostic via the adapted diagnostic client.
     void Diag(clang::SourceLocation Loc, unsigned DiagID);
 
-- 
2.43.0


From 6efcab1c8c751b3061bf345f65e3b097de2c0a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:06 +0000
Subject: [PATCH 16/70] fix: export the directory which the paths of exported
 fixes are relative to

---
 src/FixItExporter.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/FixItExporter.cpp b/src/FixItExporter.cpp
index 1a1387c..23895ca 100644
--- a/src/FixItExporter.cpp
+++ b/src/FixItExporter.cpp
@@ -90,9 +90,10 @@ tooling::Diagnostic FixItExporter::ConvertDiagnostic(const Diagnostic &Info)
         messageText = TmpMessageText.c_str();
     }
 
-    llvm::StringRef CurrentBuildDir; // Not needed?
+    // File paths can be relative to the directory of the compile command, which can be a different one for each translation unit
+    const llvm::ErrorOr<std::string> buildDir = SourceMgr.getFileManager().getVirtualFileSystem().getCurrentWorkingDirectory();
 
-    tooling::Diagnostic ToolingDiag(checkName, tooling::Diagnostic::Warning, CurrentBuildDir);
+    tooling::Diagnostic ToolingDiag(checkName, tooling::Diagnostic::Warning, buildDir ? *buildDir : std::string());
     // FIXME: Sometimes the file path is an empty string.
     if (Info.getLocation().isMacroID()) {
         auto MacroLoc = SourceMgr.getFileLoc(Info.getLocation());
-- 
2.43.0


From 76444da8df90869411eb47d2fb74a21d32f6c17e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:33 +0000
Subject: [PATCH 17/70] fix: export the fixes of warnings which are treated as
 errors

---
 src/FixItExporter.cpp | 19 +++++++++++++------
 src/FixItExporter.h   |  2 +-
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/FixItExporter.cpp b/src/FixItExporter.cpp
index 23895ca..fbe27cb 100644
--- a/src/FixItExporter.cpp
+++ b/src/FixItExporter.cpp
@@ -71,7 +71,7 @@ void FixItExporter::EndSourceFile()
     }
 }
 
-tooling::Diagnostic FixItExporter::ConvertDiagnostic(const Diagnostic &Info)
+tooling::Diagnostic FixItExporter::ConvertDiagnostic(const Diagnostic &Info, tooling::Diagnostic::Level Level)
 {
     SmallString<256> TmpMessageText;
     Info.FormatDiagnostic(TmpMessageText);
@@ -93,7 +93,7 @@ tooling::Diagnostic FixItExporter::ConvertDiagnostic(const Diagnostic &Info)
     // File paths can be relative to the directory of the compile command, which can be a different one for each translation unit
     const llvm::ErrorOr<std::string> buildDir = SourceMgr.getFileManager().getVirtualFileSystem().getCurrentWorkingDirectory();
 
-    tooling::Diagnostic ToolingDiag(checkName, tooling::Diagnostic::Warning, buildDir ? *buildDir : std::string());
+    tooling::Diagnostic ToolingDiag(checkName, Level, buildDir ? *buildDir : std::string());
     // FIXME: Sometimes the file path is an empty string.
     if (Info.getLocation().isMacroID()) {
         auto MacroLoc = SourceMgr.getFileLoc(Info.getLocation());
@@ -128,6 +128,13 @@ tooling::Replacement FixItExporter::ConvertFixIt(const FixItHint &Hint)
     return {SourceMgr, Hint.RemoveRange, Hint.CodeToInsert};
 }
 
+static bool isClazyDiagnostic(const Diagnostic &Info)
+{
+    SmallString<256> message;
+    Info.FormatDiagnostic(message);
+    return message.str().contains("[-Wclazy-");
+}
+
 // This function should export diagnostics, even if they are not fixits! Needed for Qtcreator integration
 void FixItExporter::HandleDiagnostic(DiagnosticsEngine::Level DiagLevel, const Diagnostic &Info)
 {
@@ -139,9 +146,9 @@ void FixItExporter::HandleDiagnostic(DiagnosticsEngine::Level DiagLevel, const D
         Client->HandleDiagnostic(DiagLevel, Info);
     }
 
-    // Convert and record warning diagnostics and their notes
-    if (DiagLevel == DiagnosticsEngine::Warning) {
-        auto ToolingDiag = ConvertDiagnostic(Info);
+    // Convert and record warning diagnostics and their notes. Clazy's warnings can have been promoted to errors.
+    if (DiagLevel == DiagnosticsEngine::Warning || (DiagLevel == DiagnosticsEngine::Error && isClazyDiagnostic(Info))) {
+        auto ToolingDiag = ConvertDiagnostic(Info, DiagLevel == DiagnosticsEngine::Error ? tooling::Diagnostic::Error : tooling::Diagnostic::Warning);
         for (unsigned Idx = 0, Last = Info.getNumFixItHints(); Idx < Last; ++Idx) {
             const FixItHint &Hint = Info.getFixItHint(Idx);
             const auto replacement = ConvertFixIt(Hint);
@@ -169,7 +176,7 @@ void FixItExporter::HandleDiagnostic(DiagnosticsEngine::Level DiagLevel, const D
         llvm::errs() << "Handling Note for " << FileName.str() << "\n";
 #endif
         auto diags = getTuDiag().Diagnostics.back();
-        auto diag = ConvertDiagnostic(Info);
+        auto diag = ConvertDiagnostic(Info, tooling::Diagnostic::Warning);
         diags.Notes.append(1, diag.Message);
     } else {
         m_recordNotes = false;
diff --git a/src/FixItExporter.h b/src/FixItExporter.h
index 35c2a23..ef0b7a6 100644
--- a/src/FixItExporter.h
+++ b/src/FixItExporter.h
@@ -50,7 +50,7 @@ private:
     DiagnosticConsumer *Client = nullptr;
     std::unique_ptr<DiagnosticConsumer> Owner;
     bool m_recordNotes = false;
-    clang::tooling::Diagnostic ConvertDiagnostic(const clang::Diagnostic &Info);
+    clang::tooling::Diagnostic ConvertDiagnostic(const clang::Diagnostic &Info, clang::tooling::Diagnostic::Level Level);
     clang::tooling::Replacement ConvertFixIt(const clang::FixItHint &Hint);
 };
 
-- 
2.43.0


From afe659f74d31459a1433ddb4472b222b95186ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:47 +0000
Subject: [PATCH 18/70] fix: do not crash on declaration groups,
 single-parameter arg() overloads and ternaries without constructor calls

---
 src/checks/level0/qstring-arg.cpp                        | 4 ++--
 src/checks/level1/foreach.cpp                            | 2 +-
 src/checks/level2/qstring-allocations.cpp                | 4 +---
 src/checks/manuallevel/modernize-list-initialization.cpp | 4 ++--
 4 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/checks/level0/qstring-arg.cpp b/src/checks/level0/qstring-arg.cpp
index 3801f1d..f393840 100644
--- a/src/checks/level0/qstring-arg.cpp
+++ b/src/checks/level0/qstring-arg.cpp
@@ -72,7 +72,7 @@ static bool isArgFuncWithOnlyQString(CallExpr *callExpr)
     }
 
     CXXMethodDecl *method = isArgMethod(callExpr->getDirectCallee(), "QString");
-    if (!method) {
+    if (!method || method->getNumParams() < 2) {
         return false;
     }
 
@@ -211,7 +211,7 @@ void QStringArg::VisitStmt(clang::Stmt *stmt)
     }
 
     CXXMethodDecl *method = isArgMethod(memberCall->getDirectCallee(), "QString");
-    if (!method) {
+    if (!method || method->getNumParams() < 3) {
         return;
     }
 
diff --git a/src/checks/level1/foreach.cpp b/src/checks/level1/foreach.cpp
index 07ff272..5f7f2f7 100644
--- a/src/checks/level1/foreach.cpp
+++ b/src/checks/level1/foreach.cpp
@@ -130,7 +130,7 @@ void Foreach::checkBigTypeMissingRef()
         return;
     }
 
-    Decl *decl = varDecls.at(0)->getSingleDecl();
+    Decl *decl = varDecls.at(0)->isSingleDecl() ? varDecls.at(0)->getSingleDecl() : nullptr;
     VarDecl *varDecl = decl ? dyn_cast<VarDecl>(decl) : nullptr;
     if (!varDecl) {
         return;
diff --git a/src/checks/level2/qstring-allocations.cpp b/src/checks/level2/qstring-allocations.cpp
index 5f721aa..2a71779 100644
--- a/src/checks/level2/qstring-allocations.cpp
+++ b/src/checks/level2/qstring-allocations.cpp
@@ -374,9 +374,7 @@ std::vector<FixItHint> QStringAllocations::fixItReplaceWordWithWordInTernary(cla
     addConstructExpr(ternary->getFalseExpr());
 
     if (constructExprs.size() != 2) {
-        llvm::errs() << "Weird ternary operator with " << constructExprs.size() << " constructExprs at " << ternary->getBeginLoc().printToString(sm()) << "\n";
-        ternary->dump();
-        assert(false);
+        // The branches are not both direct constructions, for example QLatin1Char in Qt 6 or a variable
         return {};
     }
 
diff --git a/src/checks/manuallevel/modernize-list-initialization.cpp b/src/checks/manuallevel/modernize-list-initialization.cpp
index 0b3c8ea..25aa516 100644
--- a/src/checks/manuallevel/modernize-list-initialization.cpp
+++ b/src/checks/manuallevel/modernize-list-initialization.cpp
@@ -16,7 +16,7 @@ using namespace clang;
 
 void ModernizeListInitialization::VisitStmt(clang::Stmt *stmt)
 {
-    if (auto expr = dyn_cast<DeclStmt>(stmt)) {
+    if (auto expr = dyn_cast<DeclStmt>(stmt); expr && expr->isSingleDecl()) {
         if (auto varDecl = dyn_cast<VarDecl>(expr->getSingleDecl()); varDecl && varDecl->hasInit()) {
             if (auto *initExpr = dyn_cast<ExprWithCleanups>(varDecl->getInit())) {
                 const std::string name = initExpr->getType().getUnqualifiedType().getAsString();
@@ -50,7 +50,7 @@ void ModernizeListInitialization::VisitStmt(clang::Stmt *stmt)
             return;
         }
         auto parent = m_context->parentMap->getParent(topLevelOperatorCall);
-        if (!isa<ImplicitCastExpr>(parent)) {
+        if (!isa_and_nonnull<ImplicitCastExpr>(parent)) {
             return;
         }
         checkOperatorCallListInitialization({parent->getBeginLoc(), topLevelOperatorCall->getEndLoc()}, topLevelOperatorCall);
-- 
2.43.0


From 1a5ecb99e4c26f49a139d8e94bf5ee44f128e28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:54 +0000
Subject: [PATCH 19/70] fix: do not reuse the Qt namespace of the first
 translation unit in isAReserveClass

---
 src/QtUtils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/QtUtils.cpp b/src/QtUtils.cpp
index 402eb1b..a25c7ea 100644
--- a/src/QtUtils.cpp
+++ b/src/QtUtils.cpp
@@ -313,7 +313,7 @@ bool clazy::isAReserveClass(CXXRecordDecl *recordDecl, const std::string &qtName
         return false;
     }
 
-    static const std::vector<std::string> classes = {
+    const std::vector<std::string> classes = {
         clazy::qtNamespaced("QVector", qtNamespace),
         "std::vector",
         clazy::qtNamespaced("QList", qtNamespace),
-- 
2.43.0


From 2abbfd5118249f1273725e6936c45b30c774cb81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:19 +0000
Subject: [PATCH 20/70] fix: honour suppression comments on the line of a
 warning in a multi-line macro invocation

---
 src/SuppressionManager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SuppressionManager.cpp b/src/SuppressionManager.cpp
index e9a4796..4b5a5be 100644
--- a/src/SuppressionManager.cpp
+++ b/src/SuppressionManager.cpp
@@ -70,7 +70,7 @@ bool SuppressionManager::isSuppressed(const std::string &checkName,
                                       const clang::LangOptions &lo) const
 {
     if (loc.isMacroID()) {
-        loc = sm.getExpansionLoc(loc);
+        loc = sm.getFileLoc(loc); // The line the warning is reported at: for macro arguments that's where they are written
     }
 
     FileID fileID = sm.getFileID(loc);
-- 
2.43.0


From 329a686add2bf14d32f88f9373490112f391b0da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:40 +0000
Subject: [PATCH 21/70] fix: report a pure virtual call once if the constructor
 is defined out of line

---
 src/checks/level2/virtual-call-ctor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/checks/level2/virtual-call-ctor.cpp b/src/checks/level2/virtual-call-ctor.cpp
index f096d23..cb22c7f 100644
--- a/src/checks/level2/virtual-call-ctor.cpp
+++ b/src/checks/level2/virtual-call-ctor.cpp
@@ -55,7 +55,7 @@ void VirtualCallCtor::VisitDecl(Decl *decl)
     }
 
     Stmt *ctorOrDtorBody = ctorDecl ? ctorDecl->getBody() : dtorDecl->getBody();
-    if (!ctorOrDtorBody) {
+    if (!ctorOrDtorBody || !cast<FunctionDecl>(decl)->doesThisDeclarationHaveABody()) { // Only visit the definition, not each declaration
         return;
     }
 
-- 
2.43.0


From 8e4c997abfffa946d8605dd7509c740d93992687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:40 +0000
Subject: [PATCH 22/70] fix: find pure virtual calls of const methods from
 constructors and destructors

---
 src/checks/level2/virtual-call-ctor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/checks/level2/virtual-call-ctor.cpp b/src/checks/level2/virtual-call-ctor.cpp
index cb22c7f..76fc1e7 100644
--- a/src/checks/level2/virtual-call-ctor.cpp
+++ b/src/checks/level2/virtual-call-ctor.cpp
@@ -94,7 +94,7 @@ SourceLocation VirtualCallCtor::containsVirtualCall(clang::CXXRecordDecl *classD
 
     for (CXXMemberCallExpr *callExpr : memberCalls) {
         CXXMethodDecl *memberDecl = callExpr->getMethodDecl();
-        if (!memberDecl || !isa<CXXThisExpr>(callExpr->getImplicitObjectArgument())) {
+        if (!memberDecl || !isa<CXXThisExpr>(callExpr->getImplicitObjectArgument()->IgnoreParenImpCasts())) {
             continue;
         }
 
-- 
2.43.0


From e986fdf6b5a9dd0cc832e4769340c34f32cfe021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:09 +0000
Subject: [PATCH 23/70] fix: accept digits, underscores, dollar signs and
 multi-dimensional arrays in JNI names and signatures

---
 src/checks/manuallevel/jnisignatures.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/checks/manuallevel/jnisignatures.cpp b/src/checks/manuallevel/jnisignatures.cpp
index 358fbe5..47f4068 100644
--- a/src/checks/manuallevel/jnisignatures.cpp
+++ b/src/checks/manuallevel/jnisignatures.cpp
@@ -24,11 +24,16 @@
 
 using namespace clang;
 
-static const std::regex methodSignatureRegex("\\((\\[?([ZBCSIJFD]|L([a-zA-Z]+\\/)*[a-zA-Z]+;))*\\)\\[?([ZBCSIJFD]|L([a-zA-Z]+\\/)*[a-zA-Z]+;|V)");
+// Java identifiers can contain digits, underscores and dollar signs; types can be arrays of any dimension, but there is no array of void
+#define JNI_IDENTIFIER "[a-zA-Z_$][a-zA-Z0-9_$]*"
+#define JNI_CLASS "(" JNI_IDENTIFIER "\\/)*" JNI_IDENTIFIER
+#define JNI_TYPE "\\[*([ZBCSIJFD]|L" JNI_CLASS ";)"
 
-static const std::regex classNameRegex("([a-zA-Z]+\\/)*[a-zA-Z]+");
+static const std::regex methodSignatureRegex("\\((" JNI_TYPE ")*\\)(" JNI_TYPE "|V)");
 
-static const std::regex methodNameRegex("[a-zA-Z]+");
+static const std::regex classNameRegex(JNI_CLASS);
+
+static const std::regex methodNameRegex(JNI_IDENTIFIER);
 
 bool checkSignature(const std::string &signature, const std::regex &expr)
 {
-- 
2.43.0


From 640f7048a79ea717dc1d0174b2328c9a285c1850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:40 +0000
Subject: [PATCH 24/70] fix: do not overflow the stack for long JNI signatures

---
 src/checks/manuallevel/jnisignatures.cpp | 15 +++++++--------
 src/checks/manuallevel/jnisignatures.h   |  4 ++--
 2 files changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/checks/manuallevel/jnisignatures.cpp b/src/checks/manuallevel/jnisignatures.cpp
index 47f4068..02ff6f0 100644
--- a/src/checks/manuallevel/jnisignatures.cpp
+++ b/src/checks/manuallevel/jnisignatures.cpp
@@ -26,23 +26,22 @@ using namespace clang;
 
 // Java identifiers can contain digits, underscores and dollar signs; types can be arrays of any dimension, but there is no array of void
 #define JNI_IDENTIFIER "[a-zA-Z_$][a-zA-Z0-9_$]*"
-#define JNI_CLASS "(" JNI_IDENTIFIER "\\/)*" JNI_IDENTIFIER
+#define JNI_CLASS "(" JNI_IDENTIFIER "/)*" JNI_IDENTIFIER
 #define JNI_TYPE "\\[*([ZBCSIJFD]|L" JNI_CLASS ";)"
 
-static const std::regex methodSignatureRegex("\\((" JNI_TYPE ")*\\)(" JNI_TYPE "|V)");
+static const llvm::Regex methodSignatureRegex("^\\((" JNI_TYPE ")*\\)(" JNI_TYPE "|V)$");
 
-static const std::regex classNameRegex(JNI_CLASS);
+static const llvm::Regex classNameRegex("^" JNI_CLASS "$");
 
-static const std::regex methodNameRegex(JNI_IDENTIFIER);
+static const llvm::Regex methodNameRegex("^" JNI_IDENTIFIER "$");
 
-bool checkSignature(const std::string &signature, const std::regex &expr)
+bool checkSignature(const std::string &signature, const llvm::Regex &expr)
 {
-    std::smatch match;
-    return std::regex_match(signature, match, expr);
+    return expr.match(signature);
 }
 
 template<typename T>
-void JniSignatures::checkArgAt(T *call, unsigned int index, const std::regex &expr, const std::string &errorMessage)
+void JniSignatures::checkArgAt(T *call, unsigned int index, const llvm::Regex &expr, const std::string &errorMessage)
 {
     if (call->getNumArgs() < index + 1) {
         return;
diff --git a/src/checks/manuallevel/jnisignatures.h b/src/checks/manuallevel/jnisignatures.h
index e8a481c..f30ae83 100644
--- a/src/checks/manuallevel/jnisignatures.h
+++ b/src/checks/manuallevel/jnisignatures.h
@@ -10,7 +10,7 @@
 
 #include "checkbase.h"
 
-#include <regex>
+#include <llvm/Support/Regex.h>
 #include <string>
 
 class JniSignatures : public CheckBase
@@ -21,7 +21,7 @@ public:
 
 private:
     template<typename T>
-    void checkArgAt(T *call, unsigned int index, const std::regex &expr, const std::string &errorMessage);
+    void checkArgAt(T *call, unsigned int index, const llvm::Regex &expr, const std::string &errorMessage);
     void checkConstructorCall(clang::Stmt *stm);
     void checkFunctionCall(clang::Stmt *stm);
 };
-- 
2.43.0


From 59dd3cf5bac67e0a7e59c7aa94b90bbebe5c090d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:34 +0000
Subject: [PATCH 25/70] fix: recognise converted references to enumerators in
 unexpected-flag-enumerator-value

---
 src/checks/manuallevel/unexpected-flag-enumerator-value.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/checks/manuallevel/unexpected-flag-enumerator-value.cpp b/src/checks/manuallevel/unexpected-flag-enumerator-value.cpp
index 54d29e7..420e172 100644
--- a/src/checks/manuallevel/unexpected-flag-enumerator-value.cpp
+++ b/src/checks/manuallevel/unexpected-flag-enumerator-value.cpp
@@ -30,7 +30,7 @@ static bool isBinaryOperatorExpression(ConstantExpr *cexpr)
 
 static bool isReferenceToEnumerator(ConstantExpr *cexpr)
 {
-    return dyn_cast_or_null<DeclRefExpr>(cexpr->getSubExpr());
+    return isa<DeclRefExpr>(cexpr->getSubExpr()->IgnoreParenCasts());
 }
 
 static bool isIntentionallyNotPowerOf2(EnumConstantDecl *en)
-- 
2.43.0


From f628a9fbfbd8d2734c88e7beb0a3e5baaf0e34ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:34 +0000
Subject: [PATCH 26/70] fix: recognise consecutive values which start below
 zero in unexpected-flag-enumerator-value

---
 src/checks/manuallevel/unexpected-flag-enumerator-value.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/checks/manuallevel/unexpected-flag-enumerator-value.cpp b/src/checks/manuallevel/unexpected-flag-enumerator-value.cpp
index 420e172..47e83a1 100644
--- a/src/checks/manuallevel/unexpected-flag-enumerator-value.cpp
+++ b/src/checks/manuallevel/unexpected-flag-enumerator-value.cpp
@@ -77,7 +77,7 @@ static SmallVector<EnumConstantDecl *, 16> getEnumerators(EnumDecl *enDecl)
 
 static uint64_t getIntegerValue(EnumConstantDecl *e)
 {
-    return e->getInitVal().getLimitedValue();
+    return e->getInitVal().extOrTrunc(64).getZExtValue(); // Extends the sign, so that 0 follows -1
 }
 
 static bool hasConsecutiveValues(const SmallVector<EnumConstantDecl *, 16> &enumerators)
-- 
2.43.0


From ec9401df0eb8cf2b8974ee4eea35b1201c5ddfef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:48 +0000
Subject: [PATCH 27/70] fix: do not mistake const members for a deleted
 copy-ctor, and consider reference members, in rule-of-three

---
 src/checks/level2/rule-of-three.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/checks/level2/rule-of-three.cpp b/src/checks/level2/rule-of-three.cpp
index f3a76e1..d134396 100644
--- a/src/checks/level2/rule-of-three.cpp
+++ b/src/checks/level2/rule-of-three.cpp
@@ -75,7 +75,8 @@ void RuleOfThree::VisitDecl(clang::Decl *decl)
     if (!copyCtor || !copyAssign) {
         for (auto *f : record->fields()) {
             QualType qt = f->getType();
-            if (qt.isConstQualified() || qt->isRValueReferenceType()) {
+            // const and reference members only prevent the copy-assignment, rvalue-reference members prevent the copy-ctor too
+            if (qt->isRValueReferenceType() || (!copyAssign && (qt.isConstQualified() || qt->isReferenceType()))) {
                 hasImplicitDeletedCopy = true;
                 break;
             }
-- 
2.43.0


From a862b1dee422f34238a05a10f03d9173d4fa5fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:36 +0000
Subject: [PATCH 28/70] fix: find implicit copy members which are not in the
 AST in copyable-polymorphic

---
 src/checks/level2/copyable-polymorphic.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/checks/level2/copyable-polymorphic.cpp b/src/checks/level2/copyable-polymorphic.cpp
index 9ade947..6fe9972 100644
--- a/src/checks/level2/copyable-polymorphic.cpp
+++ b/src/checks/level2/copyable-polymorphic.cpp
@@ -21,11 +21,13 @@ using namespace clang;
 /// Returns whether the class has non-private copy-ctor or copy-assign
 static bool hasPublicCopy(const CXXRecordDecl *record)
 {
+    // Implicit members which are not needed might not be in the AST
     CXXConstructorDecl *copyCtor = Utils::copyCtor(record);
-    const bool hasCallableCopyCtor = copyCtor && !copyCtor->isDeleted() && copyCtor->getAccess() == clang::AS_public;
+    const bool hasCallableCopyCtor = copyCtor ? !copyCtor->isDeleted() && copyCtor->getAccess() == clang::AS_public : record->hasSimpleCopyConstructor();
     if (!hasCallableCopyCtor) {
         CXXMethodDecl *copyAssign = Utils::copyAssign(record);
-        const bool hasCallableCopyAssign = copyAssign && !copyAssign->isDeleted() && copyAssign->getAccess() == clang::AS_public;
+        const bool hasCallableCopyAssign =
+            copyAssign ? !copyAssign->isDeleted() && copyAssign->getAccess() == clang::AS_public : record->hasSimpleCopyAssignment();
         if (!hasCallableCopyAssign) {
             return false;
         }
-- 
2.43.0


From 164dcbd829c8366dcf84e17a8322d49b35b42dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:36 +0000
Subject: [PATCH 29/70] fix: do not crash on final polymorphic class templates
 with a dependent base class

---
 src/checks/level2/copyable-polymorphic.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/checks/level2/copyable-polymorphic.cpp b/src/checks/level2/copyable-polymorphic.cpp
index 6fe9972..1b0edaf 100644
--- a/src/checks/level2/copyable-polymorphic.cpp
+++ b/src/checks/level2/copyable-polymorphic.cpp
@@ -46,7 +46,7 @@ static bool hasPublicCopyInAncestors(const CXXRecordDecl *record)
     for (auto base : record->bases()) {
         if (const Type *t = base.getType().getTypePtrOrNull()) {
             const CXXRecordDecl *baseRecord = t->getAsCXXRecordDecl();
-            if (hasPublicCopy(baseRecord)) {
+            if (baseRecord && hasPublicCopy(baseRecord)) {
                 return true;
             }
             if (hasPublicCopyInAncestors(t->getAsCXXRecordDecl())) {
-- 
2.43.0


From f698df315eaf94b6a45fee94c4df834854949f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:50 +0000
Subject: [PATCH 30/70] fix: use the value of QEvent::ActionChanged in
 wrong-qevent-cast, not the one of ActivationChange

---
 src/checks/level0/wrong-qevent-cast.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/checks/level0/wrong-qevent-cast.cpp b/src/checks/level0/wrong-qevent-cast.cpp
index 7d7c828..e1220c6 100644
--- a/src/checks/level0/wrong-qevent-cast.cpp
+++ b/src/checks/level0/wrong-qevent-cast.cpp
@@ -37,7 +37,7 @@ enum QtUnregularlyNamedEventTypes {
     OrientationChange = 208,
     ActionAdded = 114,
     ActionRemoved = 115,
-    ActionChanged = 99,
+    ActionChanged = 113,
     ChildAdded = 68,
     ChildRemoved = 71,
     ChildPolished = 69,
-- 
2.43.0


From a0201cc9ec8d3bad6ebac3db743f87ad3692e898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:50 +0000
Subject: [PATCH 31/70] fix: accept casts to base classes of the event's class
 in wrong-qevent-cast

---
 src/checks/level0/wrong-qevent-cast.cpp | 57 +++++++++++++------------
 1 file changed, 30 insertions(+), 27 deletions(-)

diff --git a/src/checks/level0/wrong-qevent-cast.cpp b/src/checks/level0/wrong-qevent-cast.cpp
index e1220c6..bec2de9 100644
--- a/src/checks/level0/wrong-qevent-cast.cpp
+++ b/src/checks/level0/wrong-qevent-cast.cpp
@@ -49,6 +49,7 @@ enum QtUnregularlyNamedEventTypes {
     NonClientAreaMouseButtonPress = 174,
     NonClientAreaMouseButtonRelease = 175,
     NonClientAreaMouseButtonDblClick = 176,
+    Enter = 10,
     FocusIn = 8,
     FocusOut = 9,
     FocusAboutToChange = 23,
@@ -83,6 +84,7 @@ enum QtUnregularlyNamedEventTypes {
     GraphicsSceneDrop = 167,
     GraphicsSceneWheel = 168,
     GraphicsSceneResize = 181,
+    GraphicsSceneMove = 182,
     TouchBegin = 194,
     TouchEnd = 196,
     TouchCancel = 209,
@@ -116,6 +118,7 @@ static bool eventTypeMatchesClass(QtUnregularlyNamedEventTypes eventType, const
         {DragEnter, {"QDragEnterEvent", "QDragMoveEvent", "QDropEvent"}},
         {DragLeave, {"QDragLeaveEvent", "QDragMoveEvent", "QDropEvent"}},
         {DragMove, {"QDragMoveEvent", "QDropEvent"}},
+        {Enter, {"QInputEvent", "QPointerEvent", "QSinglePointEvent"}},
         {FocusIn, {"QFocusEvent"}},
         {FocusOut, {"QFocusEvent"}},
         {FocusAboutToChange, {"QFocusEvent"}},
@@ -132,41 +135,41 @@ static bool eventTypeMatchesClass(QtUnregularlyNamedEventTypes eventType, const
         {GraphicsSceneDrop, {"QGraphicsSceneDragDropEvent", "QGraphicsSceneEvent"}},
         {GraphicsSceneWheel, {"QGraphicsSceneEvent"}},
         {GraphicsSceneResize, {"QGraphicsSceneEvent"}},
-        {GraphicsSceneMouseMove, {"QGraphicsSceneMouseEvent"}},
-        {GraphicsSceneMousePress, {"QGraphicsSceneMouseEvent"}},
-        {GraphicsSceneMouseRelease, {"QGraphicsSceneMouseEvent"}},
-        {GraphicsSceneMouseDoubleClick, {"QGraphicsSceneMouseEvent"}},
+        {GraphicsSceneMove, {"QGraphicsSceneEvent"}},
+        {GraphicsSceneMouseMove, {"QGraphicsSceneMouseEvent", "QGraphicsSceneEvent"}},
+        {GraphicsSceneMousePress, {"QGraphicsSceneMouseEvent", "QGraphicsSceneEvent"}},
+        {GraphicsSceneMouseRelease, {"QGraphicsSceneMouseEvent", "QGraphicsSceneEvent"}},
+        {GraphicsSceneMouseDoubleClick, {"QGraphicsSceneMouseEvent", "QGraphicsSceneEvent"}},
         //{ StatusTip, {"QStatusTipEvent" } },
         {ToolTip, {"QHelpEvent"}},
         {WhatsThis, {"QHelpEvent"}},
         {QueryWhatsThis, {"QHelpEvent"}},
-        {HoverEnter, {"QHoverEvent", "QInputEvent"}},
-        {HoverLeave, {"QHoverEvent", "QInputEvent"}},
-        {HoverMove, {"QHoverEvent", "QInputEvent"}},
+        {HoverEnter, {"QHoverEvent", "QInputEvent", "QPointerEvent", "QSinglePointEvent"}},
+        {HoverLeave, {"QHoverEvent", "QInputEvent", "QPointerEvent", "QSinglePointEvent"}},
+        {HoverMove, {"QHoverEvent", "QInputEvent", "QPointerEvent", "QSinglePointEvent"}},
         {KeyPress, {"QKeyEvent", "QInputEvent"}},
         {KeyRelease, {"QKeyEvent", "QInputEvent"}},
         {ShortcutOverride, {"QKeyEvent", "QInputEvent"}},
-        {MouseButtonPress, {"QMouseEvent"}},
-        {MouseButtonRelease, {"QMouseEvent"}},
-        {MouseButtonDblClick, {"QMouseEvent"}},
-        {MouseMove, {"QMouseEvent"}},
-        {NonClientAreaMouseMove, {"QMouseEvent"}},
-        {NonClientAreaMouseButtonPress, {"QMouseEvent"}},
-        {NonClientAreaMouseButtonRelease, {"QMouseEvent"}},
-        {NonClientAreaMouseButtonRelease, {"QMouseEvent"}},
-        {NonClientAreaMouseButtonDblClick, {"QMouseEvent"}},
-        {NativeGesture, {"QInputEvent"}},
+        {MouseButtonPress, {"QMouseEvent", "QInputEvent", "QPointerEvent", "QSinglePointEvent"}},
+        {MouseButtonRelease, {"QMouseEvent", "QInputEvent", "QPointerEvent", "QSinglePointEvent"}},
+        {MouseButtonDblClick, {"QMouseEvent", "QInputEvent", "QPointerEvent", "QSinglePointEvent"}},
+        {MouseMove, {"QMouseEvent", "QInputEvent", "QPointerEvent", "QSinglePointEvent"}},
+        {NonClientAreaMouseMove, {"QMouseEvent", "QInputEvent", "QPointerEvent", "QSinglePointEvent"}},
+        {NonClientAreaMouseButtonPress, {"QMouseEvent", "QInputEvent", "QPointerEvent", "QSinglePointEvent"}},
+        {NonClientAreaMouseButtonRelease, {"QMouseEvent", "QInputEvent", "QPointerEvent", "QSinglePointEvent"}},
+        {NonClientAreaMouseButtonDblClick, {"QMouseEvent", "QInputEvent", "QPointerEvent", "QSinglePointEvent"}},
+        {NativeGesture, {"QInputEvent", "QPointerEvent", "QSinglePointEvent"}},
         {OrientationChange, {"QScreenOrientationChangeEvent"}},
-        {TabletEnterProximity, {"QTabletEvent", "QInputEvent"}},
-        {TabletLeaveProximity, {"QTabletEvent", "QInputEvent"}},
-        {TabletPress, {"QTabletEvent", "QInputEvent"}},
-        {TabletMove, {"QTabletEvent", "QInputEvent"}},
-        {TabletRelease, {"QTabletEvent", "QInputEvent"}},
-        {TouchBegin, {"QTouchEvent", "QInputEvent"}},
-        {TouchCancel, {"QTouchEvent", "QInputEvent"}},
-        {TouchEnd, {"QTouchEvent", "QInputEvent"}},
-        {TouchUpdate, {"QTouchEvent", "QInputEvent"}},
-        {Wheel, {"QInputEvent"}},
+        {TabletEnterProximity, {"QTabletEvent", "QInputEvent", "QPointerEvent", "QSinglePointEvent"}},
+        {TabletLeaveProximity, {"QTabletEvent", "QInputEvent", "QPointerEvent", "QSinglePointEvent"}},
+        {TabletPress, {"QTabletEvent", "QInputEvent", "QPointerEvent", "QSinglePointEvent"}},
+        {TabletMove, {"QTabletEvent", "QInputEvent", "QPointerEvent", "QSinglePointEvent"}},
+        {TabletRelease, {"QTabletEvent", "QInputEvent", "QPointerEvent", "QSinglePointEvent"}},
+        {TouchBegin, {"QTouchEvent", "QInputEvent", "QPointerEvent"}},
+        {TouchCancel, {"QTouchEvent", "QInputEvent", "QPointerEvent"}},
+        {TouchEnd, {"QTouchEvent", "QInputEvent", "QPointerEvent"}},
+        {TouchUpdate, {"QTouchEvent", "QInputEvent", "QPointerEvent"}},
+        {Wheel, {"QInputEvent", "QPointerEvent", "QSinglePointEvent"}},
         {ContextMenu, {"QInputEvent"}}};
 
     auto it = map.find(eventType);
-- 
2.43.0


From 2b8468e146206a899b4dbfa338d287741057a02b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:12 +0000
Subject: [PATCH 32/70] fix: recognise Q_SIGNAL, Q_SLOT, Q_INVOKABLE and
 Q_SCRIPTABLE wherever moc does

---
 src/AccessSpecifierManager.cpp | 108 +++++++++++++++++++++++----------
 1 file changed, 75 insertions(+), 33 deletions(-)

diff --git a/src/AccessSpecifierManager.cpp b/src/AccessSpecifierManager.cpp
index 7fabf20..07b8303 100644
--- a/src/AccessSpecifierManager.cpp
+++ b/src/AccessSpecifierManager.cpp
@@ -18,6 +18,7 @@
 #include <clang/Basic/LangOptions.h>
 #include <clang/Basic/SourceManager.h>
 #include <clang/Frontend/CompilerInstance.h>
+#include <clang/Lex/Lexer.h>
 #include <clang/Lex/PPCallbacks.h>
 #include <clang/Lex/Preprocessor.h>
 #include <clang/Lex/Token.h>
@@ -60,6 +61,48 @@ static void sorted_insert(ClazySpecifierList &v, const ClazyAccessSpecifier &ite
     v.insert(std::upper_bound(v.begin(), v.end(), item, pred), item);
 }
 
+static bool isMethodMarker(StringRef name)
+{
+    return name == "Q_SIGNAL" || name == "Q_SLOT" || name == "Q_INVOKABLE" || name == "Q_SCRIPTABLE";
+}
+
+// Returns where the declaration that follows a method marker (Q_SIGNAL, Q_SLOT, ..) begins.
+// Skips what moc allows in between: other markers, revisions and attributes.
+static SourceLocation declarationAfterMarker(SourceLocation marker, const SourceManager &sm, const LangOptions &lo)
+{
+    const auto [fileId, offset] = sm.getDecomposedLoc(marker);
+    bool invalid = false;
+    const StringRef buffer = sm.getBufferData(fileId, &invalid);
+    if (invalid) {
+        return {};
+    }
+
+    Lexer lexer(sm.getLocForStartOfFile(fileId), lo, buffer.begin(), buffer.begin() + offset, buffer.end());
+    Token token;
+    lexer.LexFromRawLexer(token); // The marker itself
+
+    int openBrackets = 0;
+    bool isRevision = false;
+    while (true) {
+        lexer.LexFromRawLexer(token);
+        if (token.is(tok::eof)) {
+            return {};
+        }
+
+        if (token.is(tok::l_square) || (token.is(tok::l_paren) && (isRevision || openBrackets > 0))) {
+            ++openBrackets;
+        } else if (openBrackets > 0) {
+            if (token.isOneOf(tok::r_square, tok::r_paren)) {
+                --openBrackets;
+            }
+        } else if (!token.is(tok::raw_identifier) || (!isMethodMarker(token.getRawIdentifier()) && token.getRawIdentifier() != "Q_REVISION")) {
+            return token.getLocation();
+        }
+
+        isRevision = token.is(tok::raw_identifier) && token.getRawIdentifier() == "Q_REVISION";
+    }
+}
+
 class AccessSpecifierPreprocessorCallbacks : public clang::PPCallbacks
 {
 public:
@@ -113,26 +156,38 @@ public:
             m_qtAccessSpecifiers.push_back({loc, clang::AS_none, qtAccessSpecifier});
         } else {
             // Get the location of the method declaration, so we can compare directly when we visit methods
-            loc = Utils::locForNextToken(loc, m_sm, m_lo);
-            if (loc.isInvalid()) {
-                return;
-            }
+            const MethodMarker marker = {loc, declarationAfterMarker(loc, m_sm, m_lo)};
             if (isSignal) {
-                m_individualSignals.push_back(loc.getRawEncoding());
+                m_individualSignals.push_back(marker);
             } else if (isSlot) {
-                m_individualSlots.push_back(loc.getRawEncoding());
+                m_individualSlots.push_back(marker);
             } else if (isInvokable) {
-                m_invokables.push_back(loc.getRawEncoding());
+                m_invokables.push_back(marker);
             } else if (isScriptable) {
-                m_scriptables.push_back(loc.getRawEncoding());
+                m_scriptables.push_back(marker);
             }
         }
     }
 
-    std::vector<unsigned> m_individualSignals; // Q_SIGNAL
-    std::vector<unsigned> m_individualSlots; // Q_SLOT
-    std::vector<unsigned> m_invokables; // Q_INVOKABLE
-    std::vector<unsigned> m_scriptables; // Q_SCRIPTABLE
+    struct MethodMarker {
+        SourceLocation loc; // of the marker
+        SourceLocation declarationLoc; // of the declaration that comes after it
+    };
+
+    // Returns whether one of the markers is in front of the method's declaration, or between its specifiers (virtual Q_INVOKABLE void foo();)
+    static bool isMarked(const CXXMethodDecl *method, const std::vector<MethodMarker> &markers)
+    {
+        const SourceLocation begin = method->getBeginLoc();
+        const SourceLocation name = method->getLocation();
+        return std::any_of(markers.cbegin(), markers.cend(), [begin, name](const MethodMarker &marker) {
+            return marker.declarationLoc == begin || (begin <= marker.loc && marker.loc < name);
+        });
+    }
+
+    std::vector<MethodMarker> m_individualSignals; // Q_SIGNAL
+    std::vector<MethodMarker> m_individualSlots; // Q_SLOT
+    std::vector<MethodMarker> m_invokables; // Q_INVOKABLE
+    std::vector<MethodMarker> m_scriptables; // Q_SCRIPTABLE
     std::string m_qtNamespace;
     ClazySpecifierList m_qtAccessSpecifiers;
     const SourceManager &m_sm;
@@ -228,24 +283,18 @@ QtAccessSpecifierType AccessSpecifierManager::qtAccessSpecifierType(const CXXMet
     const SourceLocation methodLoc = method->getBeginLoc();
 
     // Process Q_SIGNAL:
-    for (auto signalLoc : m_preprocessorCallbacks->m_individualSignals) {
-        if (signalLoc == methodLoc.getRawEncoding()) {
-            return QtAccessSpecifier_Signal;
-        }
+    if (m_preprocessorCallbacks->isMarked(method, m_preprocessorCallbacks->m_individualSignals)) {
+        return QtAccessSpecifier_Signal;
     }
 
     // Process Q_SLOT:
-    for (auto slotLoc : m_preprocessorCallbacks->m_individualSlots) {
-        if (slotLoc == methodLoc.getRawEncoding()) {
-            return QtAccessSpecifier_Slot;
-        }
+    if (m_preprocessorCallbacks->isMarked(method, m_preprocessorCallbacks->m_individualSlots)) {
+        return QtAccessSpecifier_Slot;
     }
 
     // Process Q_INVOKABLE:
-    for (auto loc : m_preprocessorCallbacks->m_invokables) {
-        if (loc == methodLoc.getRawEncoding()) {
-            return QtAccessSpecifier_Invokable;
-        }
+    if (m_preprocessorCallbacks->isMarked(method, m_preprocessorCallbacks->m_invokables)) {
+        return QtAccessSpecifier_Invokable;
     }
 
     // Process Q_SLOTS and Q_SIGNALS:
@@ -281,18 +330,11 @@ bool AccessSpecifierManager::isScriptable(const CXXMethodDecl *method) const
         return false;
     }
 
-    const SourceLocation methodLoc = method->getBeginLoc();
-    if (methodLoc.isMacroID()) {
+    if (method->getBeginLoc().isMacroID()) {
         return false;
     }
 
-    for (auto loc : m_preprocessorCallbacks->m_scriptables) {
-        if (loc == methodLoc.getRawEncoding()) {
-            return true;
-        }
-    }
-
-    return false;
+    return m_preprocessorCallbacks->isMarked(method, m_preprocessorCallbacks->m_scriptables);
 }
 
 llvm::StringRef AccessSpecifierManager::qtAccessSpecifierTypeStr(QtAccessSpecifierType t) const
-- 
2.43.0


From 63b4bebb838b5603801024c1613698a6bc59d877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:12 +0000
Subject: [PATCH 33/70] fix: match methods by canonical parameter types and in
 class definitions

Typedefs and top level const don't make a different signature, and a forward
declaration of a class doesn't list its methods.
---
 src/FunctionUtils.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/FunctionUtils.h b/src/FunctionUtils.h
index 6944bef..6a3f638 100644
--- a/src/FunctionUtils.h
+++ b/src/FunctionUtils.h
@@ -16,6 +16,7 @@
 #include "StringUtils.h"
 #include "Utils.h"
 
+#include <clang/AST/ASTContext.h>
 #include <clang/AST/Decl.h>
 
 namespace clazy
@@ -53,7 +54,8 @@ inline bool parametersMatch(const clang::FunctionDecl *f1, const clang::Function
         clang::ParmVarDecl *p1 = params1[i];
         clang::ParmVarDecl *p2 = params2[i];
 
-        if (p1->getType() != p2->getType()) {
+        // Typedefs and const-ness of the parameter itself don't make a different signature
+        if (!f1->getASTContext().hasSameUnqualifiedType(p1->getType(), p2->getType())) {
             return false;
         }
     }
@@ -71,6 +73,10 @@ inline bool classImplementsMethod(const clang::CXXRecordDecl *record, const clan
         return false;
     }
 
+    if (record->hasDefinition()) {
+        record = record->getDefinition(); // A forward declaration doesn't have methods
+    }
+
     llvm::StringRef methodName = clazy::name(method);
     for (auto *m : record->methods()) {
         if (!m->isPureVirtual() && clazy::name(m) == methodName && parametersMatch(m, method)) {
-- 
2.43.0


From 358d28ec59827d796fce1f192901c4db359f613a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:22 +0000
Subject: [PATCH 34/70] fix: find forward declared base classes in derivesFrom

---
 src/TypeUtils.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/TypeUtils.cpp b/src/TypeUtils.cpp
index cff4f49..d65a642 100644
--- a/src/TypeUtils.cpp
+++ b/src/TypeUtils.cpp
@@ -155,6 +155,7 @@ bool clazy::derivesFrom(const CXXRecordDecl *derived, const CXXRecordDecl *possi
         return false;
     }
 
+    possibleBase = possibleBase->getCanonicalDecl();
     for (auto base : derived->bases()) {
         const Type *type = base.getType().getTypePtrOrNull();
         if (!type) {
-- 
2.43.0


From 42dac77f863c25d84a0d35430b1614cac001ff9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:22 +0000
Subject: [PATCH 35/70] fix: understand parentheses and C casts around pointers
 to member functions, and decide lambda-unique-connection by the slot's type

---
 src/QtUtils.cpp                                | 9 +++++----
 src/checks/level0/lambda-unique-connection.cpp | 3 +--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/QtUtils.cpp b/src/QtUtils.cpp
index a25c7ea..9ddf942 100644
--- a/src/QtUtils.cpp
+++ b/src/QtUtils.cpp
@@ -374,7 +374,7 @@ CXXMethodDecl *clazy::pmfFromConnect(CallExpr *funcCall, int argIndex, const std
         return nullptr;
     }
 
-    Expr *expr = funcCall->getArg(argIndex);
+    Expr *expr = funcCall->getArg(argIndex)->IgnoreParens();
     if (auto casted = dyn_cast<ImplicitCastExpr>(expr)) {
         if (auto *declRef = dyn_cast<DeclRefExpr>(casted->getSubExpr())) {
             if (auto *varDecl = dyn_cast<VarDecl>(declRef->getDecl())) {
@@ -393,6 +393,7 @@ CXXMethodDecl *clazy::pmfFromConnect(CallExpr *funcCall, int argIndex, const std
 
 CXXMethodDecl *clazy::pmfFromExpr(Expr *expr, const std::string &qtNamespace)
 {
+    expr = expr->IgnoreParens();
     if (auto *uo = dyn_cast<UnaryOperator>(expr)) {
         return pmfFromUnary(uo);
     }
@@ -421,9 +422,9 @@ CXXMethodDecl *clazy::pmfFromExpr(Expr *expr, const std::string &qtNamespace)
             return nullptr;
         }
 
-        return pmfFromUnary(dyn_cast<UnaryOperator>(call->getArg(1)));
-    } else if (auto *staticCast = dyn_cast<CXXStaticCastExpr>(expr)) {
-        return pmfFromExpr(staticCast->getSubExpr(), qtNamespace);
+        return pmfFromExpr(call->getArg(1), qtNamespace);
+    } else if (auto *explicitCast = dyn_cast<ExplicitCastExpr>(expr)) {
+        return pmfFromExpr(explicitCast->getSubExpr(), qtNamespace);
     } else if (auto *callexpr = dyn_cast<CallExpr>(expr)) {
         // QOverload case, go deeper one level to get to the UnaryOperator
         if (callexpr->getNumArgs() == 1) {
diff --git a/src/checks/level0/lambda-unique-connection.cpp b/src/checks/level0/lambda-unique-connection.cpp
index 4ea52d2..2c9b4c4 100644
--- a/src/checks/level0/lambda-unique-connection.cpp
+++ b/src/checks/level0/lambda-unique-connection.cpp
@@ -65,8 +65,7 @@ void LambdaUniqueConnection::VisitStmt(clang::Stmt *stmt)
         return;
     }
 
-    const CXXMethodDecl *method = clazy::pmfFromConnect(call, 3, m_context->qtNamespace());
-    if (method) {
+    if (func->getParamDecl(3)->getType().getNonReferenceType()->isMemberFunctionPointerType()) {
         // How else to detect if it's the right overload ? It's all templated stuff with the same
         // names for all the template arguments
         return;
-- 
2.43.0


From e8ad8876beb23c6228fc9c9ff8aef25d96fa14d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:22 +0000
Subject: [PATCH 36/70] fix: lambda-in-connect ignored connections whose sender
 or receiver comes from a function call

---
 src/checks/level0/lambda-in-connect.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/checks/level0/lambda-in-connect.cpp b/src/checks/level0/lambda-in-connect.cpp
index 1eeba66..648e7a6 100644
--- a/src/checks/level0/lambda-in-connect.cpp
+++ b/src/checks/level0/lambda-in-connect.cpp
@@ -42,7 +42,7 @@ void LambdaInConnect::VisitStmt(clang::Stmt *stmt)
     }
 
     ValueDecl *senderDecl = clazy::signalSenderForConnect(callExpr);
-    if (senderDecl) {
+    if (senderDecl && !isa<FunctionDecl>(senderDecl)) {
         const Type *t = senderDecl->getType().getTypePtrOrNull();
         if (t && !t->isPointerType()) {
             return;
@@ -50,7 +50,7 @@ void LambdaInConnect::VisitStmt(clang::Stmt *stmt)
     }
 
     ValueDecl *receiverDecl = clazy::signalReceiverForConnect(callExpr);
-    if (receiverDecl) {
+    if (receiverDecl && !isa<FunctionDecl>(receiverDecl)) {
         const Type *t = receiverDecl->getType().getTypePtrOrNull();
         if (t && !t->isPointerType()) {
             return;
-- 
2.43.0


From 73f49d48277eb4f0be0cae283c519688751e61c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:34 +0000
Subject: [PATCH 37/70] fix: see through conversions, suffixes and parentheses
 of the argument in qstring-left

---
 src/checks/level1/qstring-left.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/checks/level1/qstring-left.cpp b/src/checks/level1/qstring-left.cpp
index 27e2c67..5b9c5a2 100644
--- a/src/checks/level1/qstring-left.cpp
+++ b/src/checks/level1/qstring-left.cpp
@@ -28,7 +28,7 @@ void QStringLeft::VisitStmt(clang::Stmt *stmt)
     }
 
     Expr *firstArg = memberCall->getArg(0);
-    auto *lt = firstArg ? dyn_cast<IntegerLiteral>(firstArg) : nullptr;
+    auto *lt = firstArg ? dyn_cast<IntegerLiteral>(firstArg->IgnoreParenImpCasts()) : nullptr; // The parameter is wider than int in Qt6
     if (lt) {
         const auto value = lt->getValue();
         if (value == 0) {
-- 
2.43.0


From 44f7f6c642e29ec7b22710e08a161987521101ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:34 +0000
Subject: [PATCH 38/70] fix: find qstring-insensitive-allocation when the chain
 starts with another call

---
 src/checks/level0/qstring-insensitive-allocation.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/checks/level0/qstring-insensitive-allocation.cpp b/src/checks/level0/qstring-insensitive-allocation.cpp
index 278387a..ba54cc0 100644
--- a/src/checks/level0/qstring-insensitive-allocation.cpp
+++ b/src/checks/level0/qstring-insensitive-allocation.cpp
@@ -47,8 +47,8 @@ void QStringInsensitiveAllocation::VisitStmt(clang::Stmt *stmt)
         return;
     }
 
-    CallExpr *call1 = calls[calls.size() - 1];
-    CallExpr *call2 = calls[calls.size() - 2];
+    CallExpr *call1 = calls[1];
+    CallExpr *call2 = calls[0];
 
     if (!isInterestingCall1(call1) || !isInterestingCall2(call2)) {
         return;
-- 
2.43.0


From ead6a5ffe575954581796df757c27dac1abb7c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:34 +0000
Subject: [PATCH 39/70] fix: consider only literals which are passed to
 QLatin1String in qlatin1string-non-ascii

---
 src/checks/level1/qlatin1string-non-ascii.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/checks/level1/qlatin1string-non-ascii.cpp b/src/checks/level1/qlatin1string-non-ascii.cpp
index 1393968..9c8406c 100644
--- a/src/checks/level1/qlatin1string-non-ascii.cpp
+++ b/src/checks/level1/qlatin1string-non-ascii.cpp
@@ -18,6 +18,17 @@
 
 using namespace clang;
 
+static bool isNonAsciiLiteral(Expr *expr)
+{
+    expr = expr->IgnoreParenCasts();
+    if (auto *conditional = dyn_cast<AbstractConditionalOperator>(expr)) {
+        return isNonAsciiLiteral(conditional->getTrueExpr()) || isNonAsciiLiteral(conditional->getFalseExpr());
+    }
+
+    auto *lt = dyn_cast<StringLiteral>(expr);
+    return lt && !Utils::isAscii(lt);
+}
+
 void QLatin1StringNonAscii::VisitStmt(clang::Stmt *stmt)
 {
     auto *constructExpr = dyn_cast<CXXConstructExpr>(stmt);
@@ -27,8 +38,7 @@ void QLatin1StringNonAscii::VisitStmt(clang::Stmt *stmt)
         return;
     }
 
-    auto *lt = clazy::getFirstChildOfType2<StringLiteral>(stmt);
-    if (lt && !Utils::isAscii(lt)) {
+    if (constructExpr->getNumArgs() > 0 && isNonAsciiLiteral(constructExpr->getArg(0))) {
         emitWarning(stmt, "QLatin1String with non-ascii literal");
     }
 }
-- 
2.43.0


From edba4e948d85db2ffdd467e39fd2ec28c515dcbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:34 +0000
Subject: [PATCH 40/70] fix: recognise the field width parameter of every
 QString::arg() overload

---
 src/checks/level0/qstring-arg.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/checks/level0/qstring-arg.cpp b/src/checks/level0/qstring-arg.cpp
index f393840..5d1a2f3 100644
--- a/src/checks/level0/qstring-arg.cpp
+++ b/src/checks/level0/qstring-arg.cpp
@@ -237,7 +237,7 @@ void QStringArg::VisitStmt(clang::Stmt *stmt)
         }
 
         p = method->getParamDecl(1);
-        if (p && clazy::name(p) == "fieldWidth") {
+        if (p && clazy::toLower(clazy::name(p).str()) == "fieldwidth") { // The overloads for long long spell it "fieldwidth"
             // He specified a literal, so he knows what he's doing, otherwise he would have put it directly in the string
             std::vector<IntegerLiteral *> literals;
             clazy::getChilds<IntegerLiteral>(memberCall->getArg(1), literals);
-- 
2.43.0


From 4c431ee05e8735ce6c534f66ec90a7dfa7d5f41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:34 +0000
Subject: [PATCH 41/70] fix: split properties into tokens in
 qproperty-without-notify

---
 .../level1/qproperty-without-notify.cpp       | 20 +++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/checks/level1/qproperty-without-notify.cpp b/src/checks/level1/qproperty-without-notify.cpp
index d2f4f96..454434b 100644
--- a/src/checks/level1/qproperty-without-notify.cpp
+++ b/src/checks/level1/qproperty-without-notify.cpp
@@ -13,8 +13,6 @@
 #include <clang/Lex/Token.h>
 #include <llvm/ADT/StringRef.h>
 
-#include <vector>
-
 using namespace clang;
 
 void QPropertyWithoutNotify::VisitMacroExpands(const clang::Token &MacroNameTok, const clang::SourceRange &range, const MacroInfo *)
@@ -51,17 +49,19 @@ void QPropertyWithoutNotify::VisitMacroExpands(const clang::Token &MacroNameTok,
         return;
     }
 
-    if (text.back() == ')') {
-        text.pop_back();
-    }
-
-    std::vector<std::string> split = clazy::splitString(text, ' ');
-
     bool found_read = false;
     bool found_constant = false;
     bool found_notify = false;
-    for (std::string &token : split) {
-        clazy::rtrim(/*by-ref*/ token);
+
+    // Look at the tokens, like moc does. They are separated by any white space or comments.
+    Lexer lexer(range.getBegin(), lo(), text.c_str(), text.c_str(), text.c_str() + text.size());
+    Token tok;
+    while (!lexer.LexFromRawLexer(tok)) {
+        if (tok.isNot(tok::raw_identifier)) {
+            continue;
+        }
+
+        const llvm::StringRef token = tok.getRawIdentifier();
         if (!found_read && token == "READ") {
             found_read = true;
             continue;
-- 
2.43.0


From 68688762824fc52f3843b16e44d36773be89e8d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:34 +0000
Subject: [PATCH 42/70] fix: understand multi-word types, aliases and MEMBER in
 qproperty-type-mismatch

---
 .../manuallevel/qproperty-type-mismatch.cpp   | 79 ++++++++++++-------
 .../manuallevel/qproperty-type-mismatch.h     |  4 +-
 2 files changed, 53 insertions(+), 30 deletions(-)

diff --git a/src/checks/manuallevel/qproperty-type-mismatch.cpp b/src/checks/manuallevel/qproperty-type-mismatch.cpp
index 6ae66b0..553d83c 100644
--- a/src/checks/manuallevel/qproperty-type-mismatch.cpp
+++ b/src/checks/manuallevel/qproperty-type-mismatch.cpp
@@ -85,9 +85,10 @@ void QPropertyTypeMismatch::VisitTypedef(const clang::TypedefNameDecl *td)
     // Proper solution would be to process the .moc instead of doing text manipulation with the macros we receive
 }
 
-std::string QPropertyTypeMismatch::cleanupType(QualType type, bool unscoped) const
+std::string QPropertyTypeMismatch::cleanupType(QualType type, bool unscoped, bool canonical) const
 {
-    type = type.getNonReferenceType().getCanonicalType().getUnqualifiedType();
+    type = type.getNonReferenceType();
+    type = (canonical ? type.getCanonicalType() : type).getUnqualifiedType();
 
     PrintingPolicy po(lo());
     po.SuppressTagKeyword = true;
@@ -104,6 +105,24 @@ std::string QPropertyTypeMismatch::cleanupType(QualType type, bool unscoped) con
     return str;
 }
 
+// Removes the reference, the const of the type itself and the white space from a type as it's written in a Q_PROPERTY
+static std::string cleanupWrittenType(llvm::StringRef type)
+{
+    type = type.trim();
+    type.consume_back("&");
+    type = type.rtrim();
+    if (type.ends_with(" const") || type.ends_with("*const") || type.ends_with(">const")) {
+        type = type.drop_back(5).rtrim();
+    }
+    if (!type.ends_with("*") && (type.starts_with("const ") || type.starts_with("const::"))) {
+        type = type.drop_front(5);
+    }
+
+    std::string result = type.str();
+    result.erase(std::remove(result.begin(), result.end(), ' '), result.end());
+    return result;
+}
+
 void QPropertyTypeMismatch::checkMethodAgainstProperty(const Property &prop, const CXXMethodDecl &method, const std::string &methodName)
 {
     auto error_begin = [&] {
@@ -168,7 +187,7 @@ void QPropertyTypeMismatch::checkMethodAgainstProperty(const Property &prop, con
 
 void QPropertyTypeMismatch::checkFieldAgainstProperty(const Property &prop, const FieldDecl &field, const std::string &fieldName)
 {
-    if (prop.member && prop.name == fieldName) {
+    if (prop.member == fieldName) {
         std::string typeStr;
         if (!typesMatch(prop.type, field.getType(), typeStr)) {
             emitWarning(&field,
@@ -184,6 +203,11 @@ bool QPropertyTypeMismatch::typesMatch(const std::string &type1, QualType type2Q
         return true;
     }
 
+    // Maybe it's an alias, and both are written the same way
+    if (type1 == cleanupType(type2Qt, /*unscoped=*/false, /*canonical=*/false)) {
+        return true;
+    }
+
     // Maybe it's a typedef
     auto it = m_typedefMap.find(type1);
     if (it != m_typedefMap.cend()) {
@@ -191,6 +215,10 @@ bool QPropertyTypeMismatch::typesMatch(const std::string &type1, QualType type2Q
     }
 
     // Maybe the difference is just the scope, if yes then don't warn. We already have a check for complaining about lack of scope
+    if (clazy::endsWith(type2Cleaned, "::" + type1)) {
+        return true;
+    }
+
     type2Cleaned = cleanupType(type2Qt, /*unscopped=*/true);
     return type1 == type2Cleaned;
 }
@@ -235,38 +263,29 @@ void QPropertyTypeMismatch::VisitMacroExpands(const clang::Token &MacroNameTok,
     Property p;
     p.loc = range.getBegin();
 
-    std::size_t splitIndex = 0;
     using namespace std::string_view_literals;
 
-    // Handle type (type string and any following modifiers)
-    const auto isModifier = [](std::string_view str) {
-        return str == "*"sv || str == "&"sv;
+    // Everything before the first attribute is the type, which can have several words, followed by the name
+    const auto isAttribute = [](std::string_view word) {
+        static const std::vector<std::string_view> attributes =
+            {"READ", "WRITE", "MEMBER", "RESET", "NOTIFY", "REVISION", "DESIGNABLE", "SCRIPTABLE", "STORED", "USER", "BINDABLE", "CONSTANT", "FINAL", "REQUIRED"};
+        return clazy::contains(attributes, word.substr(0, word.find('(')));
     };
 
-    for (; isModifier(split[splitIndex]) || p.type.empty(); ++splitIndex) {
-        p.type += split[splitIndex];
-    }
-
-    // Handle name
-    p.name = split[splitIndex];
-
-    std::size_t actualNameStartPos = 0;
-    // FIXME: This is getting hairy, better use regexps
-    for (unsigned int i = 0; i < p.name.size(); ++i) {
-        if (p.name[i] == '*' || p.name[i] == '&') {
-            p.type += p.name[i];
-            ++actualNameStartPos;
-        } else {
-            break;
-        }
+    const bool isNameAttached = split[0].find_first_of("*&>") < split[0].size() - 1; // int*name
+    for (std::size_t i = 0; i < split.size() && !(i > (isNameAttached ? 0 : 1) && isAttribute(split[i])); ++i) {
+        p.type += (i == 0 ? "" : " ") + std::string(split[i]);
     }
 
-    if (actualNameStartPos) {
-        p.name.erase(0, actualNameStartPos);
+    std::size_t nameBegin = p.type.size();
+    while (nameBegin > 0 && (std::isalnum(static_cast<unsigned char>(p.type[nameBegin - 1])) || p.type[nameBegin - 1] == '_')) {
+        --nameBegin;
     }
+    p.name = p.type.substr(nameBegin);
+    p.type = cleanupWrittenType(p.type.substr(0, nameBegin));
 
     // Handle Q_PROPERTY functions
-    enum { None, Read, Write, Notify } next = None;
+    enum { None, Read, Write, Notify, Member } next = None;
 
     for (const std::string_view &token : split) {
         switch (next) {
@@ -281,8 +300,9 @@ void QPropertyTypeMismatch::VisitMacroExpands(const clang::Token &MacroNameTok,
                 next = Notify;
                 continue;
             } else if (token == "MEMBER"sv) {
-                p.member = true;
-                break;
+                p.member = p.name;
+                next = Member;
+                continue;
             }
             break;
         }
@@ -295,6 +315,9 @@ void QPropertyTypeMismatch::VisitMacroExpands(const clang::Token &MacroNameTok,
         case Notify:
             p.notify = token;
             break;
+        case Member:
+            p.member = token;
+            break;
         }
 
         next = None;
diff --git a/src/checks/manuallevel/qproperty-type-mismatch.h b/src/checks/manuallevel/qproperty-type-mismatch.h
index 557350f..0a513a3 100644
--- a/src/checks/manuallevel/qproperty-type-mismatch.h
+++ b/src/checks/manuallevel/qproperty-type-mismatch.h
@@ -42,16 +42,16 @@ private:
 
     struct Property {
         clang::SourceLocation loc;
-        bool member{};
         std::string name;
         std::string type;
+        std::string member;
         std::string read;
         std::string write;
         std::string notify;
     };
 
     std::vector<Property> m_qproperties;
-    std::string cleanupType(clang::QualType type, bool unscoped = false) const;
+    std::string cleanupType(clang::QualType type, bool unscoped = false, bool canonical = true) const;
     void checkMethodAgainstProperty(const Property &prop, const clang::CXXMethodDecl &method, const std::string &methodName);
     void checkFieldAgainstProperty(const Property &prop, const clang::FieldDecl &method, const std::string &methodName);
 
-- 
2.43.0


From 6b4d94a95e3be6f24ea5f8596ba2d379c5186a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:34 +0000
Subject: [PATCH 43/70] fix: look through pointers, const and typedefs in
 fully-qualified-moc-types

---
 .../level0/fully-qualified-moc-types.cpp      | 61 +++++++++----------
 src/checks/level0/fully-qualified-moc-types.h |  2 +-
 2 files changed, 31 insertions(+), 32 deletions(-)

diff --git a/src/checks/level0/fully-qualified-moc-types.cpp b/src/checks/level0/fully-qualified-moc-types.cpp
index c2b038e..8389db5 100644
--- a/src/checks/level0/fully-qualified-moc-types.cpp
+++ b/src/checks/level0/fully-qualified-moc-types.cpp
@@ -78,14 +78,11 @@ static std::string normalizeType(const std::string &type)
     return out;
 }
 
-std::string FullyQualifiedMocTypes::writtenType(const ParmVarDecl *param) const
+// Returns the type without pointers, references and qualifiers, which don't need qualification
+static TypeLoc underlyingTypeLoc(TypeLoc TL)
 {
-    TypeSourceInfo *TSI = param->getTypeSourceInfo();
-    if (!TSI)
-        return {};
-
-    TypeLoc TL = TSI->getTypeLoc();
-    while (true) {
+    while (!TL.isNull()) {
+        TL = TL.getUnqualifiedLoc();
         if (auto PtrLoc = TL.getAs<PointerTypeLoc>()) {
             TL = PtrLoc.getPointeeLoc();
         } else if (auto RefLoc = TL.getAs<ReferenceTypeLoc>()) {
@@ -95,6 +92,11 @@ std::string FullyQualifiedMocTypes::writtenType(const ParmVarDecl *param) const
         }
     }
 
+    return TL;
+}
+
+std::string FullyQualifiedMocTypes::writtenType(TypeLoc TL) const
+{
     CharSourceRange CSR = CharSourceRange::getTokenRange(TL.getSourceRange());
     StringRef text = Lexer::getSourceText(CSR, sm(), lo());
     return normalizeType(text.str());
@@ -126,38 +128,34 @@ void FullyQualifiedMocTypes::VisitDecl(clang::Decl *decl)
     }
 
     for (auto *param : method->parameters()) {
-        QualType t = clazy::pointeeQualType(param->getType());
-        const std::string typeName = writtenType(param);
+        TypeSourceInfo *TSI = param->getTypeSourceInfo();
+        if (!TSI) {
+            continue;
+        }
+
+        const TypeLoc typeLoc = underlyingTypeLoc(TSI->getTypeLoc());
+        const std::string typeName = writtenType(typeLoc);
         std::string qualifiedTypeName;
-        if (!typeIsFullyQualified(t, /*by-ref*/ qualifiedTypeName, typeName)) {
-            SourceRange fixitRange = param->getTypeSourceInfo()->getTypeLoc().getSourceRange();
-            // We don't want to include the & or * characters for the fixit range
-            if (param->getType()->isReferenceType() || param->getType()->isPointerType()) {
-                fixitRange = SourceRange(fixitRange.getBegin(), fixitRange.getEnd().getLocWithOffset(-1));
-            }
-            std::vector fixits{FixItHint::CreateReplacement(fixitRange, qualifiedTypeName)};
+        if (!typeIsFullyQualified(typeLoc.getType(), /*by-ref*/ qualifiedTypeName, typeName)) {
+            std::vector fixits{FixItHint::CreateReplacement(typeLoc.getSourceRange(), qualifiedTypeName)};
             std::string warning = accessSpecifierManager->qtAccessSpecifierTypeStr(qst).str() + " arguments need to be fully-qualified";
             emitWarning(param->getTypeSpecStartLoc(), warning, fixits);
         }
     }
 
     if (qst == QtAccessSpecifier_Slot || qst == QtAccessSpecifier_Invokable) {
-        QualType returnT = method->getReturnType();
-        SourceRange returnTypeSourceRange = method->getReturnTypeSourceRange();
-        if (returnT->isReferenceType() || returnT->isPointerType()) {
-            returnTypeSourceRange = SourceRange(returnTypeSourceRange.getBegin(), returnTypeSourceRange.getEnd().getLocWithOffset(-1));
+        const FunctionTypeLoc functionTypeLoc = method->getFunctionTypeLoc();
+        if (!functionTypeLoc) {
+            return;
         }
-        StringRef returnText = Lexer::getSourceText(CharSourceRange::getTokenRange(returnTypeSourceRange), sm(), lo());
-        const std::string typeName = normalizeType(returnText.str());
+
+        const TypeLoc typeLoc = underlyingTypeLoc(functionTypeLoc.getReturnLoc());
+        const std::string typeName = writtenType(typeLoc);
         std::string qualifiedTypeName;
-        if (!typeName.empty() && !typeIsFullyQualified(clazy::pointeeQualType(returnT), /*by-ref*/ qualifiedTypeName, typeName)) {
-            if (method->getReturnType()->isReferenceType() || method->getReturnType()->isPointerType()) {
-                // We don't want to include the & or * characters for the fixit range
-                returnTypeSourceRange = SourceRange(returnTypeSourceRange.getBegin(), returnTypeSourceRange.getEnd().getLocWithOffset(-1));
-            }
+        if (!typeName.empty() && !typeIsFullyQualified(typeLoc.getType(), /*by-ref*/ qualifiedTypeName, typeName)) {
             std::string warning = accessSpecifierManager->qtAccessSpecifierTypeStr(qst).str() + " return types need to be fully-qualified";
-            std::vector fixits{FixItHint::CreateReplacement(returnTypeSourceRange, qualifiedTypeName)};
-            emitWarning(returnTypeSourceRange.getBegin(), warning, fixits);
+            std::vector fixits{FixItHint::CreateReplacement(typeLoc.getSourceRange(), qualifiedTypeName)};
+            emitWarning(method->getReturnTypeSourceRange().getBegin(), warning, fixits);
         }
     }
 }
@@ -181,11 +179,12 @@ std::string FullyQualifiedMocTypes::getQualifiedNameOfType(const Type *ptr, bool
         return recordDecl->getQualifiedNameAsString();
     }
     // The lexer logic we use to collect the comparison string from the source code has no spaces between the type and * or &
+    const std::string constPointee = ptr->getPointeeType().isNull() || !ptr->getPointeeType().isConstQualified() ? "" : "const ";
     if (ptr->isPointerType()) {
-        return getQualifiedNameOfType(ptr->getPointeeType().getTypePtr(), true) + "*";
+        return constPointee + getQualifiedNameOfType(ptr->getPointeeType().getTypePtr(), true) + "*";
     }
     if (ptr->isReferenceType()) {
-        return getQualifiedNameOfType(ptr->getPointeeType().getTypePtr(), true) + "&";
+        return constPointee + getQualifiedNameOfType(ptr->getPointeeType().getTypePtr(), true) + "&";
     }
     return QualType::getFromOpaquePtr(ptr).getAsString(lo());
 }
diff --git a/src/checks/level0/fully-qualified-moc-types.h b/src/checks/level0/fully-qualified-moc-types.h
index 8f6bf88..45aa534 100644
--- a/src/checks/level0/fully-qualified-moc-types.h
+++ b/src/checks/level0/fully-qualified-moc-types.h
@@ -36,7 +36,7 @@ private:
     std::string getQualifiedNameOfType(const clang::Type *ptr, bool resolveTemplateArgs) const;
     std::string resolveTemplateType(const clang::TemplateSpecializationType *ptr, bool resolveTemplateArgs) const;
 
-    std::string writtenType(const clang::ParmVarDecl *param) const;
+    std::string writtenType(clang::TypeLoc typeLoc) const;
 
     std::vector<clang::SourceLocation> m_qgadgetMacroLocations;
 };
-- 
2.43.0


From 8ee14cfaf094e0399794298b3690f802151b26d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:34 +0000
Subject: [PATCH 44/70] fix: variables are modified by increments of members,
 non-const references and arguments of member operators

---
 src/Utils.cpp | 45 ++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 44 insertions(+), 1 deletion(-)

diff --git a/src/Utils.cpp b/src/Utils.cpp
index 82c73f4..eac12c4 100644
--- a/src/Utils.cpp
+++ b/src/Utils.cpp
@@ -273,6 +273,27 @@ static bool referencesVar(Stmt *s, const VarDecl *varDecl)
     return false;
 }
 
+// Whether expr designates the variable or a part of it
+static bool designatesVar(Expr *expr, const VarDecl *varDecl)
+{
+    while (expr) {
+        expr = expr->IgnoreParenCasts();
+        if (auto *declRef = dyn_cast<DeclRefExpr>(expr)) {
+            return declRef->getDecl() == varDecl;
+        }
+
+        if (auto *member = dyn_cast<MemberExpr>(expr); member && !member->isArrow()) {
+            expr = member->getBase();
+        } else if (auto *subscript = dyn_cast<ArraySubscriptExpr>(expr); subscript && subscript->getBase()->IgnoreParenImpCasts()->getType()->isArrayType()) {
+            expr = subscript->getBase();
+        } else {
+            return false;
+        }
+    }
+
+    return false;
+}
+
 bool Utils::containsNonConstMemberCall(clang::ParentMap * /*map*/, Stmt *body, const VarDecl *varDecl)
 {
     if (!varDecl) {
@@ -318,13 +339,35 @@ bool Utils::containsNonConstMemberCall(clang::ParentMap * /*map*/, Stmt *body, c
         }
     }
 
+    std::vector<UnaryOperator *> unaryOperators;
+    clazy::getChilds<UnaryOperator>(body, unaryOperators);
+    for (auto *op : unaryOperators) {
+        if (op->isIncrementDecrementOp() && designatesVar(op->getSubExpr(), varDecl)) {
+            return true;
+        }
+    }
+
+    std::vector<DeclStmt *> declStmts;
+    clazy::getChilds<DeclStmt>(body, declStmts);
+    for (auto *declStmt : declStmts) {
+        for (auto *decl : declStmt->decls()) {
+            auto *reference = dyn_cast<VarDecl>(decl);
+            if (reference && !reference->isImplicit() && reference->getType()->isReferenceType() && !reference->getType()->getPointeeType().isConstQualified()
+                && designatesVar(reference->getInit(), varDecl)) {
+                return true;
+            }
+        }
+    }
+
     return false;
 }
 
 template<class T>
 static bool isArgOfFunc(T expr, FunctionDecl *fDecl, const VarDecl *varDecl, bool byRefOrPtrOnly)
 {
-    unsigned int param = -1;
+    // The first argument of a call to a member operator is the object
+    const bool hasObjectArg = isa<CXXOperatorCallExpr>(expr) && isa<CXXMethodDecl>(fDecl);
+    unsigned int param = hasObjectArg ? -2 : -1;
     for (auto arg : expr->arguments()) {
         ++param;
         auto refExpr = dyn_cast<DeclRefExpr>(arg);
-- 
2.43.0


From fd30cf9ff40633868d89476f80e2c4df3bd7ea23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:30 +0000
Subject: [PATCH 45/70] fix: keep the way the object is written in the edits of
 isempty-vs-count

---
 src/checks/manuallevel/isempty-vs-count.cpp | 26 ++++++++++++++-------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/checks/manuallevel/isempty-vs-count.cpp b/src/checks/manuallevel/isempty-vs-count.cpp
index 2ffb9a5..ebb3568 100644
--- a/src/checks/manuallevel/isempty-vs-count.cpp
+++ b/src/checks/manuallevel/isempty-vs-count.cpp
@@ -22,6 +22,13 @@
 
 using namespace clang;
 
+/// Returns what's written before the name of the method, for example "foo." or "foo->"
+static StringRef objectText(CXXMemberCallExpr *call, const SourceManager &sm, const LangOptions &lo)
+{
+    auto *memberExpr = dyn_cast<MemberExpr>(call->getCallee()->IgnoreParens());
+    return memberExpr ? Lexer::getSourceText(CharSourceRange::getCharRange(call->getBeginLoc(), memberExpr->getMemberLoc()), sm, lo) : StringRef();
+}
+
 void IsEmptyVSCount::VisitStmt(clang::Stmt *stmt)
 {
     if (auto op = dyn_cast<ExprWithCleanups>(stmt)) {
@@ -48,19 +55,18 @@ void IsEmptyVSCount::VisitStmt(clang::Stmt *stmt)
             if (!intliteral) {
                 return;
             }
-            auto *baseExpr = dyn_cast<MemberExpr>(method->getCallee())->getBase()->IgnoreParenImpCasts();
-            StringRef baseText = getSourceText(baseExpr);
+            StringRef baseText = objectText(method, sm(), lo());
 
             if ((isEqual && intliteral->getValue().isZero()) || (isSmaller && intliteral->getValue().isOne())) {
                 emitWarning(stmt->getBeginLoc(),
                             "use isEmpty() instead",
-                            {FixItHint::CreateReplacement(binaryOpt->getSourceRange(), baseText.str() + ".isEmpty()")});
+                            {FixItHint::CreateReplacement(binaryOpt->getSourceRange(), baseText.str() + "isEmpty()")});
             }
 
             if (isGreater && intliteral->getValue().isZero()) {
                 emitWarning(stmt->getBeginLoc(),
                             "use isEmpty() instead",
-                            {FixItHint::CreateReplacement(binaryOpt->getSourceRange(), "!" + baseText.str() + ".isEmpty()")});
+                            {FixItHint::CreateReplacement(binaryOpt->getSourceRange(), "!" + baseText.str() + "isEmpty()")});
             }
         }
     }
@@ -84,11 +90,10 @@ void IsEmptyVSCount::VisitStmt(clang::Stmt *stmt)
         return;
     }
 
-    auto *baseExpr = memberExpr->getBase()->IgnoreParenImpCasts();
+    StringRef baseText = objectText(memberCall, sm(), lo());
     if (clazy::classIsOneOf(method->getParent(), {"QMultiHash", "QMultiMap"}) && memberCall->getNumArgs() == 2) {
-        StringRef baseText = getSourceText(baseExpr);
         StringRef argText = getSourceText(memberCall->getArg(0));
-        const auto fixit = FixItHint::CreateReplacement(stmt->getSourceRange(), (baseText + ".contains(" + argText + ")").str());
+        const auto fixit = FixItHint::CreateReplacement(stmt->getSourceRange(), (baseText + "contains(" + argText + ")").str());
 
         emitWarning(stmt->getBeginLoc(), "use contains() instead", {fixit});
         return;
@@ -99,6 +104,10 @@ void IsEmptyVSCount::VisitStmt(clang::Stmt *stmt)
         return;
     }
 
+    if (memberCall->getNumArgs() != 0) {
+        return; // QList::count(value)
+    }
+
     SourceRange fixitRange = memberCall->getSourceRange();
     std::string operatorPrefix = "!";
     auto *parent = m_context->parentMap->getParent(stmt);
@@ -109,8 +118,7 @@ void IsEmptyVSCount::VisitStmt(clang::Stmt *stmt)
         }
     }
 
-    StringRef BaseText = getSourceText(baseExpr);
-    const auto fixit = FixItHint::CreateReplacement(fixitRange, (operatorPrefix + BaseText + ".isEmpty()").str());
+    const auto fixit = FixItHint::CreateReplacement(fixitRange, (operatorPrefix + baseText + "isEmpty()").str());
 
     emitWarning(stmt->getBeginLoc(), "use isEmpty() instead", {fixit});
 }
-- 
2.43.0


From e5a2e997aa400e8d4a86651c4583a85f20660faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:30 +0000
Subject: [PATCH 46/70] fix: only edit calls through the result of data() in
 use-arrow-operator-instead-of-data

---
 .../use-arrow-operator-instead-of-data.cpp    | 26 ++++++++++++-------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/checks/manuallevel/use-arrow-operator-instead-of-data.cpp b/src/checks/manuallevel/use-arrow-operator-instead-of-data.cpp
index 2a27360..fd5d05a 100644
--- a/src/checks/manuallevel/use-arrow-operator-instead-of-data.cpp
+++ b/src/checks/manuallevel/use-arrow-operator-instead-of-data.cpp
@@ -48,24 +48,30 @@ void UseArrowOperatorInsteadOfData::VisitStmt(clang::Stmt *stmt)
         }
     }
 
+    // The result of data() has to be what the arrow is applied to, it might be an operand or an argument too
+    auto *dataCallee = dyn_cast<MemberExpr>(callExpr->getCallee());
+    auto *outerCallee = dyn_cast<MemberExpr>(vec.at(vec.size() - 2)->getCallee());
+    Expr *base = outerCallee ? outerCallee->getBase()->IgnoreParenImpCasts() : nullptr;
+    while (base && base != callExpr) {
+        auto *baseMember = dyn_cast<MemberExpr>(base);
+        base = baseMember ? baseMember->getBase()->IgnoreParenImpCasts() : nullptr;
+    }
+    if (!dataCallee || !base) {
+        return;
+    }
+
     std::vector<FixItHint> fixits;
 
     constexpr int MinPossibleColonPos = sizeof("QPointer") - 1;
     const std::string ClassName = func.substr(0, func.find(':', MinPossibleColonPos));
 
-    auto begin = callExpr->getExprLoc();
+    // the '.' in ptr.data()
+    const auto begin = dataCallee->getOperatorLoc();
     const auto end = callExpr->getEndLoc();
 
-    // find '.' in ptr.data()
-    int dotOffset = 0;
-    const char *d = sm().getCharacterData(begin);
-    while (*d != '.') {
-        dotOffset--;
-        d--;
+    if (!dataCallee->isArrow() && begin.isValid()) {
+        fixits.push_back(FixItHint::CreateRemoval(SourceRange{begin, end}));
     }
-    begin = begin.getLocWithOffset(dotOffset);
-
-    fixits.push_back(FixItHint::CreateRemoval(SourceRange{begin, end}));
 
     emitWarning(callExpr->getBeginLoc(), "Use operator -> directly instead of " + ClassName + "::data()->", fixits);
 }
-- 
2.43.0


From dd7d3692ca74dc9a2ae933f8da5a4ff0ba1e2f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:30 +0000
Subject: [PATCH 47/70] fix: do not add a second default constructor in the
 edits of copyable-polymorphic

---
 src/checks/level2/copyable-polymorphic.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/checks/level2/copyable-polymorphic.cpp b/src/checks/level2/copyable-polymorphic.cpp
index 1b0edaf..3c6c7b0 100644
--- a/src/checks/level2/copyable-polymorphic.cpp
+++ b/src/checks/level2/copyable-polymorphic.cpp
@@ -80,7 +80,7 @@ void CopyablePolymorphic::VisitDecl(clang::Decl *decl)
 std::vector<clang::FixItHint> CopyablePolymorphic::fixits(clang::CXXRecordDecl *record)
 {
     std::vector<FixItHint> result;
-    if (!m_context->accessSpecifierManager) {
+    if (!m_context->accessSpecifierManager || record->getBeginLoc().isMacroID() || isa<ClassTemplateSpecializationDecl>(record)) {
         return {};
     }
 
@@ -98,11 +98,11 @@ std::vector<clang::FixItHint> CopyablePolymorphic::fixits(clang::CXXRecordDecl *
         result.push_back(clazy::createInsertion(pos, std::string("\tQ_DISABLE_COPY(") + className.data() + std::string(")\n")));
     }
 
-    // If the class has a default constructor, then we need to readd it,
+    // If the class has an implicit default constructor, then we need to readd it,
     // as the disabled copy constructor removes it.
     // Add it in the public section if one exists, otherwise add a
     // public section at the top of the class declaration.
-    if (record->hasDefaultConstructor()) {
+    if (record->hasDefaultConstructor() && !record->hasUserDeclaredConstructor()) {
         pos = m_context->accessSpecifierManager->firstLocationOfSection(clang::AccessSpecifier::AS_public, record);
         if (pos.isInvalid()) {
             pos = record->getBraceRange().getBegin().getLocWithOffset(1);
-- 
2.43.0


From 3c5562c73425e74c8ccf0ac3c7c92a29e27ea3c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:30 +0000
Subject: [PATCH 48/70] fix: replace nothing but auto in the edits of
 auto-unexpected-qstringbuilder

---
 src/checks/level1/auto-unexpected-qstringbuilder.cpp | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/checks/level1/auto-unexpected-qstringbuilder.cpp b/src/checks/level1/auto-unexpected-qstringbuilder.cpp
index 5838be6..71d4d4d 100644
--- a/src/checks/level1/auto-unexpected-qstringbuilder.cpp
+++ b/src/checks/level1/auto-unexpected-qstringbuilder.cpp
@@ -45,16 +45,10 @@ void AutoUnexpectedQStringBuilder::VisitDecl(Decl *decl)
         return;
     }
 
-    std::string replacement = "QString " + clazy::name(varDecl).str();
-
-    if (qualtype.isConstQualified()) {
-        replacement = "const " + replacement;
-    }
-
-    SourceLocation start = varDecl->getBeginLoc();
-    SourceLocation end = varDecl->getLocation();
     std::vector<FixItHint> fixits;
-    fixits.push_back(clazy::createReplacement({start, end}, replacement));
+    if (AutoTypeLoc autoLoc = varDecl->getTypeSourceInfo()->getTypeLoc().getContainedAutoTypeLoc()) {
+        fixits.push_back(clazy::createReplacement(autoLoc.getSourceRange(), "QString"));
+    }
 
     emitWarning(decl->getBeginLoc(), "auto deduced to be QStringBuilder instead of QString. Possible crash.", fixits);
 }
-- 
2.43.0


From 97006d7739429e695e969723c0f4731bb4d700df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:30 +0000
Subject: [PATCH 49/70] fix: parenthesise the object in the edits of
 qbytearray-conversion-to-c-style

---
 .../manuallevel/qbytearray-conversion-to-c-style.cpp     | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/checks/manuallevel/qbytearray-conversion-to-c-style.cpp b/src/checks/manuallevel/qbytearray-conversion-to-c-style.cpp
index fb62d1c..30bcdc9 100644
--- a/src/checks/manuallevel/qbytearray-conversion-to-c-style.cpp
+++ b/src/checks/manuallevel/qbytearray-conversion-to-c-style.cpp
@@ -109,6 +109,13 @@ void QBytearrayConversionToCStyle::VisitStmt(clang::Stmt *stmt)
         }
     }
 
-    std::vector<FixItHint> fixits = {clazy::createReplacement(sr, std::string{text} + ".constData()")};
+    std::string object{text};
+    const Expr *objectExpr = memberExpr->getImplicitObjectArgument()->IgnoreImplicit();
+    auto *operatorExpr = dyn_cast<CXXOperatorCallExpr>(objectExpr);
+    if (isa<UnaryOperator, BinaryOperator, AbstractConditionalOperator, CStyleCastExpr>(objectExpr)
+        || (operatorExpr && operatorExpr->getOperator() != OO_Subscript && operatorExpr->getOperator() != OO_Call)) {
+        object = "(" + object + ")";
+    }
+    std::vector<FixItHint> fixits = {clazy::createReplacement(sr, object + ".constData()")};
     emitWarning(begin, msg, fixits);
 }
-- 
2.43.0


From c85a820ecd415aae9f864da1fbfa8b8f2ee69cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:30 +0000
Subject: [PATCH 50/70] fix: do not remove what follows an empty literal in the
 edits of qstring-allocations

---
 src/checks/level2/qstring-allocations.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/checks/level2/qstring-allocations.cpp b/src/checks/level2/qstring-allocations.cpp
index 2a71779..6423ff7 100644
--- a/src/checks/level2/qstring-allocations.cpp
+++ b/src/checks/level2/qstring-allocations.cpp
@@ -536,7 +536,7 @@ std::vector<FixItHint> QStringAllocations::fixItRawLiteral(StringLiteral *lt, co
             // SourceLocation start = operatorCall->getArg(0)->getEndLoc();
             // So instead, we have to start from the "==" sign and eat whitespace to the left
             SourceLocation start = eatLeadingWhitespace(operatorCall->getBeginLoc(), operatorCall->getExprLoc(), sm(), lo());
-            fixits.push_back(clazy::createReplacement({start, range.getEnd()}, ".isEmpty()"));
+            fixits.push_back(clazy::createReplacement({start, lt->getStrTokenLoc(lt->getNumConcatenated() - 1)}, ".isEmpty()"));
             return fixits;
         }
 
@@ -546,7 +546,7 @@ std::vector<FixItHint> QStringAllocations::fixItRawLiteral(StringLiteral *lt, co
             // SourceLocation start = operatorCall->getArg(0)->getEndLoc();
             // So instead, we have to start from the "==" sign and eat whitespace to the left
             SourceLocation start = eatLeadingWhitespace(operatorCall->getBeginLoc(), operatorCall->getExprLoc(), sm(), lo());
-            fixits.push_back(clazy::createReplacement({start, range.getEnd()}, ".isEmpty()"));
+            fixits.push_back(clazy::createReplacement({start, lt->getStrTokenLoc(lt->getNumConcatenated() - 1)}, ".isEmpty()"));
             fixits.push_back(clazy::createInsertion(operatorCall->getBeginLoc(), "!"));
             return fixits;
         }
-- 
2.43.0


From 4cb87d106e712f51a3468385f36e9debb7d7dabd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:30 +0000
Subject: [PATCH 51/70] fix: end the line after the Q_OBJECT added by
 missing-qobject-macro

---
 src/checks/level2/missing-qobject-macro.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/checks/level2/missing-qobject-macro.cpp b/src/checks/level2/missing-qobject-macro.cpp
index a311310..b94c5da 100644
--- a/src/checks/level2/missing-qobject-macro.cpp
+++ b/src/checks/level2/missing-qobject-macro.cpp
@@ -45,6 +45,10 @@ void MissingQObjectMacro::VisitDecl(clang::Decl *decl)
         return;
     }
 
+    if (record->isLocalClass()) { // Neither does the compiler accept the static members in local classes
+        return;
+    }
+
     if (m_context->usingPreCompiledHeaders()) {
         return;
     }
@@ -63,7 +67,8 @@ void MissingQObjectMacro::VisitDecl(clang::Decl *decl)
 
     std::vector<FixItHint> fixits;
     const SourceLocation pos = record->getBraceRange().getBegin().getLocWithOffset(1);
-    fixits.push_back(clazy::createInsertion(pos, "\n\tQ_OBJECT"));
+    const bool endsLine = isWhitespace(*sm().getCharacterData(pos)); // otherwise the macro would be glued to the next token
+    fixits.push_back(clazy::createInsertion(pos, endsLine ? "\n\tQ_OBJECT" : "\n\tQ_OBJECT\n"));
 
     const std::string fileName = sm().getFilename(startLoc).str();
     if (clazy::endsWith(fileName, ".cpp")) {
-- 
2.43.0


From 2764bba7c9ba40161a958d1081a18db70ac739f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:30 +0000
Subject: [PATCH 52/70] fix: keep what precedes the first call in the edits of
 qdatetime-utc

---
 src/FixItUtils.cpp                  | 14 ++++++++++----
 src/checks/level0/qdatetime-utc.cpp |  8 ++++----
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/FixItUtils.cpp b/src/FixItUtils.cpp
index 390fb9f..d1c4a0d 100644
--- a/src/FixItUtils.cpp
+++ b/src/FixItUtils.cpp
@@ -171,14 +171,20 @@ bool clazy::transformTwoCallsIntoOneV2(const ASTContext *context, CXXMemberCallE
         return false;
     }
 
-    SourceLocation start = implicitArgument->getBeginLoc();
-    start = clazy::locForEndOfToken(context, start, 0);
+    // Keep whatever is written before the name of the first method, for example "::QDateTime::"
+    auto *call1 = dyn_cast<CallExpr>(implicitArgument->IgnoreUnlessSpelledInSource());
+    const SourceLocation start = call2->getBeginLoc();
     const SourceLocation end = call2->getEndLoc();
-    if (start.isInvalid() || end.isInvalid()) {
+    if (!call1 || start.isInvalid() || end.isInvalid()) {
         return false;
     }
 
-    fixits.push_back(clazy::createReplacement({start, end}, replacement));
+    const Expr *callee = call1->getCallee()->IgnoreParenImpCasts();
+    const auto *declRef = dyn_cast<DeclRefExpr>(callee);
+    const SourceLocation name = declRef ? declRef->getLocation() : callee->getExprLoc();
+    const StringRef prefix = Lexer::getSourceText(CharSourceRange::getCharRange(call1->getBeginLoc(), name), context->getSourceManager(), context->getLangOpts());
+
+    fixits.push_back(clazy::createReplacement({start, end}, prefix.str() + replacement));
     return true;
 }
 
diff --git a/src/checks/level0/qdatetime-utc.cpp b/src/checks/level0/qdatetime-utc.cpp
index af897ea..180a5dc 100644
--- a/src/checks/level0/qdatetime-utc.cpp
+++ b/src/checks/level0/qdatetime-utc.cpp
@@ -58,14 +58,14 @@ void QDateTimeUtc::VisitStmt(clang::Stmt *stmt)
         return;
     }
 
-    std::string replacement = "::currentDateTimeUtc()";
+    std::string replacement = "currentDateTimeUtc()";
     if (isMSecSinceEpoc) {
-        replacement = "::currentMSecsSinceEpoch()";
+        replacement = "currentMSecsSinceEpoch()";
     } else if (isSecSinceEpoc) {
-        replacement = "::currentSecsSinceEpoch()";
+        replacement = "currentSecsSinceEpoch()";
     }
 
     std::vector<FixItHint> fixits;
     clazy::transformTwoCallsIntoOneV2(astContext(), secondCall, replacement, fixits);
-    emitWarning(stmt->getBeginLoc(), "Use QDateTime" + replacement + " instead. It is significantly faster", fixits);
+    emitWarning(stmt->getBeginLoc(), "Use QDateTime::" + replacement + " instead. It is significantly faster", fixits);
 }
-- 
2.43.0


From c18001a99bde0b61d3193eb61aea8aed4b2a7244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:30 +0000
Subject: [PATCH 53/70] fix: make the edits of qcolor-from-literal compile for
 black and for implicit conversions

---
 src/checks/level0/qcolor-from-literal.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/checks/level0/qcolor-from-literal.cpp b/src/checks/level0/qcolor-from-literal.cpp
index 73c3fa7..5746549 100644
--- a/src/checks/level0/qcolor-from-literal.cpp
+++ b/src/checks/level0/qcolor-from-literal.cpp
@@ -111,9 +111,13 @@ public:
                 message = "The QColor ctor taking ints is cheaper than one taking string literals";
             } else {
                 fixit = "0x" + twoDigit(rColor) + twoDigit(gColor) + twoDigit(bColor);
+                if (fixit == "0x000000") {
+                    fixit += "u"; // a plain zero is convertible to a pointer too
+                }
                 message = "The QColor ctor taking RGB int value is cheaper than one taking string literals";
             }
-            if (isStaticFromString) {
+            const auto *ctor = result.Nodes.getNodeAs<CXXConstructExpr>("ctor");
+            if (isStaticFromString || (doubleDigitA && ctor && !takesArgumentList(ctor, *result.Context))) {
                 fixit = "QColor(" + fixit + ")";
             }
             m_check->emitWarning(replaceExpr->getBeginLoc(), message, {clang::FixItHint::CreateReplacement(replaceExpr->getSourceRange(), fixit)});
@@ -122,6 +126,13 @@ public:
             m_check->emitWarning(replaceExpr->getBeginLoc(), "The QColor ctor taking QRgba64 is cheaper than one taking string literals");
         }
     }
+    /// Returns whether the arguments of the constructor are written in parentheses or braces of their own, as opposed to conversions
+    static bool takesArgumentList(const CXXConstructExpr *ctor, ASTContext &context)
+    {
+        const auto parents = context.getParents(*ctor);
+        const Stmt *parent = parents.empty() ? nullptr : parents[0].get<Stmt>();
+        return !isa_and_nonnull<CStyleCastExpr>(parent) && (ctor->getParenOrBraceRange().isValid() || isa_and_nonnull<CXXFunctionalCastExpr>(parent));
+    }
     inline std::string twoDigit(const std::string &in)
     {
         return in.length() == 1 ? in + in : in;
@@ -170,7 +181,7 @@ void QColorFromLiteral::VisitStmt(Stmt *stmt)
 void QColorFromLiteral::registerASTMatchers(MatchFinder &finder)
 {
     m_astMatcherCallBack = std::make_unique<QColorFromLiteral_Callback>(this);
-    finder.addMatcher(cxxConstructExpr(hasDeclaration(namedDecl(hasName("QColor"))), hasArgument(0, stringLiteral().bind("myLiteral"))),
+    finder.addMatcher(cxxConstructExpr(hasDeclaration(namedDecl(hasName("QColor"))), hasArgument(0, stringLiteral().bind("myLiteral"))).bind("ctor"),
                       m_astMatcherCallBack.get());
     finder.addMatcher(callExpr(hasDeclaration(cxxMethodDecl(hasName("fromString"), hasParent(cxxRecordDecl(hasName("QColor")))))).bind("methodCall"),
                       m_astMatcherCallBack.get());
-- 
2.43.0


From 8225876043ee877d39cc813e776bc04050abb4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:30 +0000
Subject: [PATCH 54/70] fix: take whole tokens and const overloads into account
 in the edits of modernize-overloaded-connects

---
 .../level1/modernize-overloaded-connects.cpp   | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/checks/level1/modernize-overloaded-connects.cpp b/src/checks/level1/modernize-overloaded-connects.cpp
index cc9ad10..98d1e0e 100644
--- a/src/checks/level1/modernize-overloaded-connects.cpp
+++ b/src/checks/level1/modernize-overloaded-connects.cpp
@@ -9,6 +9,7 @@
 #include "TypeUtils.h"
 #include "Utils.h"
 
+#include <algorithm>
 #include <clang/AST/AST.h>
 
 using namespace clang;
@@ -47,10 +48,16 @@ void ModernizeOverloadedConnects::checkConnectArg(CallExpr *call, int numArgToCh
 
     const std::string pmfMethodName = pmfFromConnect->getNameAsString();
     bool isMethodOverloaded = false;
+    bool isConstOverloaded = false; // only the const differs
     for (CXXMethodDecl *method : pmfFromConnect->getParent()->methods()) {
         if (!isMethodOverloaded && method != pmfFromConnect) {
             isMethodOverloaded = pmfMethodName == method->getNameAsString();
         }
+        if (method != pmfFromConnect && pmfMethodName == method->getNameAsString()) {
+            isConstOverloaded |= std::ranges::equal(method->parameters(), pmfFromConnect->parameters(), [](const ParmVarDecl *a, const ParmVarDecl *b) {
+                return a->getType().getCanonicalType() == b->getType().getCanonicalType();
+            });
+        }
     }
 
     const auto maybeEmitWarn = [this](clang::SourceLocation loc, std::string error, const std::vector<FixItHint> &fixits) {
@@ -74,12 +81,12 @@ void ModernizeOverloadedConnects::checkConnectArg(CallExpr *call, int numArgToCh
     }
     if (auto callExpr = dyn_cast<CallExpr>(argToCheck)) {
         if (auto calleeDecl = dyn_cast<CXXMethodDecl>(callExpr->getDirectCallee())) {
-            if (calleeDecl->getNameAsString() == "of" && calleeDecl->getParent()->getNameAsString() == "QNonConstOverload") {
+            auto *ofRef = dyn_cast<DeclRefExpr>(callExpr->getCallee()->IgnoreImplicit());
+            if (ofRef && calleeDecl->getNameAsString() == "of" && calleeDecl->getParent()->getNameAsString() == "QNonConstOverload") {
                 if (isMethodOverloaded) {
                     std::vector<FixItHint> fixits{
                         FixItHint::CreateReplacement(SourceRange(callExpr->getBeginLoc(), callExpr->getBeginLoc().getLocWithOffset(1)), "qOverload"),
-                        FixItHint::CreateRemoval(SourceRange(callExpr->getArg(0)->getBeginLoc().getLocWithOffset(-5), // Remove ::of part from source code
-                                                             callExpr->getArg(0)->getBeginLoc().getLocWithOffset(-2))),
+                        FixItHint::CreateRemoval(SourceRange(ofRef->getQualifierLoc().getEndLoc(), ofRef->getLocation())), // Remove ::of part from source code
                     };
                     maybeEmitWarn(call->getBeginLoc(), "Use more concise qOverload", fixits);
                 } else {
@@ -102,9 +109,10 @@ void ModernizeOverloadedConnects::checkConnectArg(CallExpr *call, int numArgToCh
                 }
                 signalOverloadParams += p->getType().getAsString();
             }
+            const std::string overload = !isConstOverloaded ? "qOverload" : pmfFromConnect->isConst() ? "qConstOverload" : "qNonConstOverload";
             std::vector<FixItHint> fixits{
-                FixItHint::CreateReplacement(SourceRange(castExpr->getBeginLoc(), subExpr->getBeginLoc().getLocWithOffset(-2)),
-                                             "qOverload<" + signalOverloadParams + ">"),
+                FixItHint::CreateReplacement(SourceRange(castExpr->getBeginLoc(), castExpr->getAngleBrackets().getEnd()),
+                                             overload + "<" + signalOverloadParams + ">"),
             };
             maybeEmitWarn(call->getBeginLoc(), "Unneeded QOverload::of", fixits);
         } else {
-- 
2.43.0


From 498e626d2fd2e3f07abfe797a6fd05a3be1cffac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:30 +0000
Subject: [PATCH 55/70] fix: handle explicit operator[] calls, whitespace and
 QMap in the edits of the detaching checks

---
 src/QtUtils.cpp              | 4 ++--
 src/checks/detachingbase.cpp | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/QtUtils.cpp b/src/QtUtils.cpp
index 9ddf942..5a2fd6a 100644
--- a/src/QtUtils.cpp
+++ b/src/QtUtils.cpp
@@ -129,9 +129,9 @@ std::unordered_map<std::string, std::vector<clazy::MemberConstcounterpartPair>>
         const Vec mapApi = {
             {"begin", "cbegin"},
             {"end", "cend"},
-            {"first", "constFirst"},
+            {"first", "first"}, // const overload exists, same name
             {"find", "constFind"},
-            {"last", "constLast"},
+            {"last", "last"},
             {"operator[]", "value"},
             {"lowerBound", "lowerBound"}, // const overload exists, same name
             {"upperBound", "upperBound"},
diff --git a/src/checks/detachingbase.cpp b/src/checks/detachingbase.cpp
index 9840940..aab27be 100644
--- a/src/checks/detachingbase.cpp
+++ b/src/checks/detachingbase.cpp
@@ -40,14 +40,14 @@ std::vector<FixItHint> DetachingBase::getFixitHints(StringRef className, StringR
             // No fixit possible
         } else if (auto *memberCall = dyn_cast<CXXMemberCallExpr>(callExpr)) {
             if (auto *callee = dyn_cast<MemberExpr>(memberCall->getCallee())) {
-                hints.emplace_back(FixItHint::CreateReplacement(callee->getMemberLoc(), it->second));
+                hints.emplace_back(FixItHint::CreateReplacement(callee->getMemberNameInfo().getSourceRange(), it->second));
             }
         } else if (auto *operatorCall = dyn_cast<CXXOperatorCallExpr>(callExpr); operatorCall && it->first == "operator[]") {
             StringRef argText = Lexer::getSourceText(CharSourceRange::getTokenRange(operatorCall->getArg(1)->getSourceRange()), sm(), lo());
             std::string operatorRepleacement = ("." + it->second + "(" + argText + ")").str();
             SourceLocation left;
-            if (isa<MemberExpr>(operatorCall->getArg(0))) {
-                left = operatorCall->getArg(1)->getBeginLoc().getLocWithOffset(-1);
+            if (auto *member = dyn_cast<MemberExpr>(operatorCall->getArg(0)->IgnoreImpCasts())) {
+                left = member->getMemberLoc().getLocWithOffset(clazy::name(member->getMemberDecl()).size());
             } else {
                 // Clang SourcRanges are very confusing. Get the location of the argument to the call and go one to the left. Works in macros too!
                 left = operatorCall->getArg(0)->getEndLoc().getLocWithOffset(1);
-- 
2.43.0


From dfc3207d41f52ede4cb661b1dfd0ba940ba152a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:30 +0000
Subject: [PATCH 56/70] fix: only consider the object itself in
 qfileinfo-exists

---
 src/checks/level0/qfileinfo-exists.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/checks/level0/qfileinfo-exists.cpp b/src/checks/level0/qfileinfo-exists.cpp
index dc257de..c5ad1b6 100644
--- a/src/checks/level0/qfileinfo-exists.cpp
+++ b/src/checks/level0/qfileinfo-exists.cpp
@@ -25,7 +25,12 @@ void QFileInfoExists::VisitStmt(clang::Stmt *stmt)
         return;
     }
 
-    auto *ctorExpr = clazy::getFirstChildOfType<CXXConstructExpr>(existsCall);
+    // Only if the object itself is constructed right here. It could also be a function taking a QFileInfo, for example
+    Expr *object = existsCall->getImplicitObjectArgument()->IgnoreUnlessSpelledInSource();
+    if (auto *cast = dyn_cast<ExplicitCastExpr>(object)) {
+        object = cast->getSubExpr()->IgnoreUnlessSpelledInSource();
+    }
+    auto *ctorExpr = dyn_cast<CXXConstructExpr>(object);
     if (!ctorExpr || clazy::simpleArgTypeName(ctorExpr->getConstructor(), 0, lo()) != qtNamespaced("QString")) {
         return;
     }
-- 
2.43.0


From 6a3f15ab75da79274696d2b089aa04adf3a10df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:28 +0000
Subject: [PATCH 57/70] fix: only turn comparisons with an empty literal on the
 right into isEmpty()

---
 src/checks/level2/qstring-allocations.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/checks/level2/qstring-allocations.cpp b/src/checks/level2/qstring-allocations.cpp
index 6423ff7..241acb6 100644
--- a/src/checks/level2/qstring-allocations.cpp
+++ b/src/checks/level2/qstring-allocations.cpp
@@ -530,8 +530,10 @@ std::vector<FixItHint> QStringAllocations::fixItRawLiteral(StringLiteral *lt, co
             return {};
         }
 
+        const bool literalIsOnTheRight = operatorCall && operatorCall->getBeginLoc() != lt->getBeginLoc();
+
         // Turn str == "" into str.isEmpty()
-        if (operatorCall && operatorCall->getOperator() == OO_EqualEqual && lt->getLength() == 0) {
+        if (literalIsOnTheRight && operatorCall->getOperator() == OO_EqualEqual && lt->getLength() == 0) {
             // For some reason this returns the same as getStartLoc
             // SourceLocation start = operatorCall->getArg(0)->getEndLoc();
             // So instead, we have to start from the "==" sign and eat whitespace to the left
@@ -541,7 +543,7 @@ std::vector<FixItHint> QStringAllocations::fixItRawLiteral(StringLiteral *lt, co
         }
 
         // Turn str != "" into !str.isEmpty()
-        if (operatorCall && operatorCall->getOperator() == OO_ExclaimEqual && lt->getLength() == 0) {
+        if (literalIsOnTheRight && operatorCall->getOperator() == OO_ExclaimEqual && lt->getLength() == 0) {
             // For some reason this returns the same as getStartLoc
             // SourceLocation start = operatorCall->getArg(0)->getEndLoc();
             // So instead, we have to start from the "==" sign and eat whitespace to the left
-- 
2.43.0


From d888fd360490f191c4544da454a0c8ecf43793aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:28 +0000
Subject: [PATCH 58/70] fix: keep default arguments as they are in the edits of
 function-args-by-value

---
 src/checks/level2/function-args-by-value.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/checks/level2/function-args-by-value.cpp b/src/checks/level2/function-args-by-value.cpp
index cd79933..72024c8 100644
--- a/src/checks/level2/function-args-by-value.cpp
+++ b/src/checks/level2/function-args-by-value.cpp
@@ -214,7 +214,11 @@ FixItHint FunctionArgsByValue::fixit(FunctionDecl *func, const ParmVarDecl *para
 
     if (param->hasDefaultArg() && (isDeclarationButNotDefinition || definitionIsAlsoDeclaration)) {
         endLoc = param->getDefaultArg()->getBeginLoc().getLocWithOffset(-1);
-        replacement += " =";
+        if (!param->getName().empty()) {
+            endLoc = param->getLocation(); // keep the default argument as it is, "= {}" starts at the equal sign
+        } else {
+            replacement += " =";
+        }
     }
 
     if (!startLoc.isValid() || !endLoc.isValid()) {
-- 
2.43.0


From a493a971e5bcea99379c4209f99acfa3fcd9ce41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:28 +0000
Subject: [PATCH 59/70] fix: do not read wide string literals as if they were
 narrow

---
 src/checks/level0/connect-not-normalized.cpp  | 4 ++--
 src/checks/level0/lowercase-qml-type-name.cpp | 2 +-
 src/checks/level0/qcolor-from-literal.cpp     | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/checks/level0/connect-not-normalized.cpp b/src/checks/level0/connect-not-normalized.cpp
index cc1fb29..13c0a59 100644
--- a/src/checks/level0/connect-not-normalized.cpp
+++ b/src/checks/level0/connect-not-normalized.cpp
@@ -55,7 +55,7 @@ bool ConnectNotNormalized::handleQ_ARG(clang::Stmt *stmt)
     }
 
     auto *sl = clazy::getFirstChildOfType2<clang::StringLiteral>(expr->getArg(0));
-    return sl && checkNormalizedLiteral(sl, expr);
+    return sl && sl->getCharByteWidth() == 1 && checkNormalizedLiteral(sl, expr);
 }
 bool ConnectNotNormalized::checkNormalizedLiteral(clang::StringLiteral *sl, clang::Expr *expr)
 {
@@ -96,7 +96,7 @@ bool ConnectNotNormalized::handleConnect(CallExpr *callExpr)
 
     Expr *arg1 = callExpr->getArg(0);
     auto *sl = clazy::getFirstChildOfType2<clang::StringLiteral>(arg1);
-    if (!sl) {
+    if (!sl || sl->getCharByteWidth() != 1) {
         return false;
     }
     std::string original = sl->getString().str();
diff --git a/src/checks/level0/lowercase-qml-type-name.cpp b/src/checks/level0/lowercase-qml-type-name.cpp
index 6e204b0..0ca853a 100644
--- a/src/checks/level0/lowercase-qml-type-name.cpp
+++ b/src/checks/level0/lowercase-qml-type-name.cpp
@@ -40,7 +40,7 @@ void LowercaseQMlTypeName::VisitStmt(clang::Stmt *stmt)
     }
 
     auto *literal = clazy::getFirstChildOfType2<StringLiteral>(arg);
-    if (!literal) {
+    if (!literal || literal->getCharByteWidth() != 1) {
         return;
     }
 
diff --git a/src/checks/level0/qcolor-from-literal.cpp b/src/checks/level0/qcolor-from-literal.cpp
index 5746549..5ccbff2 100644
--- a/src/checks/level0/qcolor-from-literal.cpp
+++ b/src/checks/level0/qcolor-from-literal.cpp
@@ -69,7 +69,7 @@ public:
                 isStaticFromString = true;
             }
         }
-        if (!lt) {
+        if (!lt || lt->getCharByteWidth() != 1) {
             return;
         }
 
@@ -173,7 +173,7 @@ void QColorFromLiteral::VisitStmt(Stmt *stmt)
     }
 
     auto *lt = clazy::getFirstChildOfType2<StringLiteral>(call->getArg(0));
-    if (lt && isStringColorLiteralPattern(lt->getString())) {
+    if (lt && lt->getCharByteWidth() == 1 && isStringColorLiteralPattern(lt->getString())) {
         emitWarning(lt, "The ctor taking ints is cheaper than QColor::setNamedColor(QString)");
     }
 }
-- 
2.43.0


From 96d27b340adf29948e50c5775e8665c552f0fdc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:56 +0000
Subject: [PATCH 60/70] fix: don't crash on QObject itself in
 ctor-missing-parent-argument

---
 src/checks/level2/ctor-missing-parent-argument.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/checks/level2/ctor-missing-parent-argument.cpp b/src/checks/level2/ctor-missing-parent-argument.cpp
index a7f8781..af5493a 100644
--- a/src/checks/level2/ctor-missing-parent-argument.cpp
+++ b/src/checks/level2/ctor-missing-parent-argument.cpp
@@ -63,6 +63,11 @@ void CtorMissingParentArgument::VisitDecl(Decl *decl)
 
     if (numCtors > 0 && !hasQObjectParam) {
         clang::CXXRecordDecl *baseClass = clazy::getQObjectBaseClass(record, m_context->qtNamespace());
+        if (!baseClass) {
+            // QObject itself
+            return;
+        }
+
         const bool baseHasQObjectParam = clazy::recordHasCtorWithParam(baseClass, parentType, /*by-ref*/ ok, /*by-ref*/ numCtors);
         if (ok && !baseHasQObjectParam && sm().isInSystemHeader(baseClass->getBeginLoc())) {
             // If the base class ctors don't accept QObject, and it's declared in a system header don't warn
-- 
2.43.0


From 03b56a0a29fe8242e4fb4f81f16f446f685e373b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:56 +0000
Subject: [PATCH 61/70] fix: don't crash on qobject_cast calls without
 arguments or with other template arguments in unneeded-cast

---
 src/checks/manuallevel/unneeded-cast.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/checks/manuallevel/unneeded-cast.cpp b/src/checks/manuallevel/unneeded-cast.cpp
index fe0bf35..2b3674d 100644
--- a/src/checks/manuallevel/unneeded-cast.cpp
+++ b/src/checks/manuallevel/unneeded-cast.cpp
@@ -32,7 +32,7 @@ inline bool is_qobject_cast(clang::Stmt *s, clang::CXXRecordDecl **castTo = null
 {
     if (auto *callExpr = llvm::dyn_cast<clang::CallExpr>(s)) {
         clang::FunctionDecl *func = callExpr->getDirectCallee();
-        if (!func || clazy::name(func) != "qobject_cast") {
+        if (!func || clazy::name(func) != "qobject_cast" || callExpr->getNumArgs() == 0) {
             return false;
         }
 
@@ -52,7 +52,7 @@ inline bool is_qobject_cast(clang::Stmt *s, clang::CXXRecordDecl **castTo = null
 
         if (castTo) {
             const auto *templateArgs = func->getTemplateSpecializationArgs();
-            if (templateArgs->size() == 1) {
+            if (templateArgs && templateArgs->size() == 1 && templateArgs->get(0).getKind() == clang::TemplateArgument::Type) {
                 const clang::TemplateArgument &arg = templateArgs->get(0);
                 clang::QualType qt = clazy::pointeeQualType(arg.getAsType());
                 if (!qt.isNull()) {
@@ -138,6 +138,10 @@ bool UnneededCast::handleQObjectCast(Stmt *stm)
 
 bool UnneededCast::maybeWarn(Stmt *stmt, CXXRecordDecl *castFrom, CXXRecordDecl *castTo, bool isQObjectCast)
 {
+    if (!castFrom || !castTo) {
+        return false;
+    }
+
     castFrom = castFrom->getCanonicalDecl();
     castTo = castTo->getCanonicalDecl();
 
-- 
2.43.0


From 6b60fc4b23fcd371db90d0c28b4cf99eb79ca1fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:56 +0000
Subject: [PATCH 62/70] fix: don't read beyond the arguments of connect-like
 calls

---
 src/QtUtils.cpp                                     | 6 +++++-
 src/checks/level1/modernize-overloaded-connects.cpp | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/QtUtils.cpp b/src/QtUtils.cpp
index 5a2fd6a..6459936 100644
--- a/src/QtUtils.cpp
+++ b/src/QtUtils.cpp
@@ -180,6 +180,10 @@ std::unordered_map<std::string, std::vector<clazy::MemberConstcounterpartPair>>
 
 bool clazy::isQMetaMethod(CallExpr *Call, unsigned int argIndex, const std::string &qtNamespace)
 {
+    if (argIndex >= Call->getNumArgs()) {
+        return false;
+    }
+
     Expr *arg = Call->getArg(argIndex);
     QualType type = arg->getType();
     if (!type->isRecordType()) {
@@ -370,7 +374,7 @@ CXXMethodDecl *clazy::pmfFromConnect(CallExpr *funcCall, int argIndex, const std
     }
 
     const int numArgs = funcCall->getNumArgs();
-    if (argIndex >= numArgs) {
+    if (argIndex < 0 || argIndex >= numArgs) {
         return nullptr;
     }
 
diff --git a/src/checks/level1/modernize-overloaded-connects.cpp b/src/checks/level1/modernize-overloaded-connects.cpp
index 98d1e0e..4e7711b 100644
--- a/src/checks/level1/modernize-overloaded-connects.cpp
+++ b/src/checks/level1/modernize-overloaded-connects.cpp
@@ -80,7 +80,7 @@ void ModernizeOverloadedConnects::checkConnectArg(CallExpr *call, int numArgToCh
         }
     }
     if (auto callExpr = dyn_cast<CallExpr>(argToCheck)) {
-        if (auto calleeDecl = dyn_cast<CXXMethodDecl>(callExpr->getDirectCallee())) {
+        if (auto calleeDecl = dyn_cast_or_null<CXXMethodDecl>(callExpr->getDirectCallee())) {
             auto *ofRef = dyn_cast<DeclRefExpr>(callExpr->getCallee()->IgnoreImplicit());
             if (ofRef && calleeDecl->getNameAsString() == "of" && calleeDecl->getParent()->getNameAsString() == "QNonConstOverload") {
                 if (isMethodOverloaded) {
-- 
2.43.0


From 7423f68f5ee20a600d691c9ec86ad08c56d21869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:56 +0000
Subject: [PATCH 63/70] fix: don't crash on overloaded operators without a
 known callee

---
 src/Utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Utils.cpp b/src/Utils.cpp
index eac12c4..7ee29c4 100644
--- a/src/Utils.cpp
+++ b/src/Utils.cpp
@@ -963,7 +963,7 @@ UserDefinedLiteral *Utils::userDefinedLiteral(Stmt *stm, const std::string &type
 
 clang::ArrayRef<clang::ParmVarDecl *> Utils::functionParameters(clang::FunctionDecl *func)
 {
-    return func->parameters();
+    return func ? func->parameters() : clang::ArrayRef<clang::ParmVarDecl *>();
 }
 
 std::vector<CXXCtorInitializer *> Utils::ctorInitializer(CXXConstructorDecl *ctor, clang::ParmVarDecl *param)
-- 
2.43.0


From 33a3867d8c6831d7ccf165aaee2af5e3d7a11a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:56 +0000
Subject: [PATCH 64/70] fix: don't ask for the size of dependent types

---
 src/TypeUtils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TypeUtils.cpp b/src/TypeUtils.cpp
index d65a642..41e0e41 100644
--- a/src/TypeUtils.cpp
+++ b/src/TypeUtils.cpp
@@ -25,7 +25,7 @@ bool clazy::classifyQualType(const ClazyContext *context, clang::QualType qualTy
 {
     QualType unrefQualType = clazy::unrefQualType(qualType);
     const Type *paramType = unrefQualType.getTypePtrOrNull();
-    if (!paramType || paramType->isIncompleteType()) {
+    if (!paramType || paramType->isIncompleteType() || paramType->isDependentType()) {
         return false;
     }
 
-- 
2.43.0


From a74d1f9b679e2a2add7ccb5c41a60a6bf919f5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:56 +0000
Subject: [PATCH 65/70] fix: don't crash on Q_PROPERTY within the arguments of
 another macro

---
 src/checks/level1/qproperty-without-notify.cpp     | 2 +-
 src/checks/manuallevel/qproperty-type-mismatch.cpp | 7 ++++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/checks/level1/qproperty-without-notify.cpp b/src/checks/level1/qproperty-without-notify.cpp
index 454434b..b715ddb 100644
--- a/src/checks/level1/qproperty-without-notify.cpp
+++ b/src/checks/level1/qproperty-without-notify.cpp
@@ -54,7 +54,7 @@ void QPropertyWithoutNotify::VisitMacroExpands(const clang::Token &MacroNameTok,
     bool found_notify = false;
 
     // Look at the tokens, like moc does. They are separated by any white space or comments.
-    Lexer lexer(range.getBegin(), lo(), text.c_str(), text.c_str(), text.c_str() + text.size());
+    Lexer lexer(sm().getFileLoc(range.getBegin()), lo(), text.c_str(), text.c_str(), text.c_str() + text.size());
     Token tok;
     while (!lexer.LexFromRawLexer(tok)) {
         if (tok.isNot(tok::raw_identifier)) {
diff --git a/src/checks/manuallevel/qproperty-type-mismatch.cpp b/src/checks/manuallevel/qproperty-type-mismatch.cpp
index 553d83c..b94a49d 100644
--- a/src/checks/manuallevel/qproperty-type-mismatch.cpp
+++ b/src/checks/manuallevel/qproperty-type-mismatch.cpp
@@ -240,10 +240,15 @@ void QPropertyTypeMismatch::VisitMacroExpands(const clang::Token &MacroNameTok,
 
     llvm::StringRef text = Lexer::getSourceText(crange, sm(), lo());
 
+    if (text.size() <= q_property.size()) {
+        // For example within the argument of another macro
+        return;
+    }
+
     const auto openingLParen = std::find_if_not(text.begin() + q_property.size(), text.end(), [](char c) {
         return std::isspace(c);
     });
-    if (*openingLParen != '(') {
+    if (openingLParen == text.end() || *openingLParen != '(') {
         emitWarning(range.getBegin(), "Could not parse argument of the Q_PROPERTY macro");
         return;
     }
-- 
2.43.0


From ba03a80a4efc875439f866260b70da6ff2c7adc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:56 +0000
Subject: [PATCH 66/70] fix: don't crash on initializers without a type in
 modernize-list-initialization

---
 src/checks/manuallevel/modernize-list-initialization.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/checks/manuallevel/modernize-list-initialization.cpp b/src/checks/manuallevel/modernize-list-initialization.cpp
index 25aa516..eeb2e26 100644
--- a/src/checks/manuallevel/modernize-list-initialization.cpp
+++ b/src/checks/manuallevel/modernize-list-initialization.cpp
@@ -18,7 +18,7 @@ void ModernizeListInitialization::VisitStmt(clang::Stmt *stmt)
 {
     if (auto expr = dyn_cast<DeclStmt>(stmt); expr && expr->isSingleDecl()) {
         if (auto varDecl = dyn_cast<VarDecl>(expr->getSingleDecl()); varDecl && varDecl->hasInit()) {
-            if (auto *initExpr = dyn_cast<ExprWithCleanups>(varDecl->getInit())) {
+            if (auto *initExpr = dyn_cast<ExprWithCleanups>(varDecl->getInit()); initExpr && !initExpr->getType().isNull()) {
                 const std::string name = initExpr->getType().getUnqualifiedType().getAsString();
                 if (name == "QStringList" || name.starts_with("QList")) {
                     if (auto constructExpr = dyn_cast<CXXConstructExpr>(initExpr->getSubExpr()); constructExpr && constructExpr->getNumArgs() > 0) {
-- 
2.43.0


From 77d1855c41f153451ad9552074985f05491e5a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:19 +0000
Subject: [PATCH 67/70] fix: don't crash on comparison operators returning void
 in compare-member-check

---
 src/checks/manuallevel/compare-member-check.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/checks/manuallevel/compare-member-check.cpp b/src/checks/manuallevel/compare-member-check.cpp
index 7bc430c..d36d317 100644
--- a/src/checks/manuallevel/compare-member-check.cpp
+++ b/src/checks/manuallevel/compare-member-check.cpp
@@ -81,6 +81,8 @@ public:
                 if (!returnStmt)
                     return;
                 const Expr *returnExpr = returnStmt->getRetValue();
+                if (!returnExpr) // operators may return void
+                    return;
                 if (const auto *exprWithCleanups = dyn_cast<ExprWithCleanups>(returnExpr)) {
                     if (auto opCallExpr = dyn_cast<CXXOperatorCallExpr>(exprWithCleanups->getSubExpr())) {
                         const Expr *lhs = opCallExpr->getArg(0);
-- 
2.43.0


From d97c94cf0e8f735f4de61fa32fd9ea239ad4c9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:19 +0000
Subject: [PATCH 68/70] fix: don't crash on Objective-C instance variables in
 qproperty-type-mismatch

---
 src/checks/manuallevel/qproperty-type-mismatch.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/checks/manuallevel/qproperty-type-mismatch.cpp b/src/checks/manuallevel/qproperty-type-mismatch.cpp
index b94a49d..0ecf991 100644
--- a/src/checks/manuallevel/qproperty-type-mismatch.cpp
+++ b/src/checks/manuallevel/qproperty-type-mismatch.cpp
@@ -59,7 +59,10 @@ void QPropertyTypeMismatch::VisitMethod(const clang::CXXMethodDecl &method)
 
 void QPropertyTypeMismatch::VisitField(const FieldDecl &field)
 {
-    const auto &theClass = field.getParent();
+    const auto *theClass = field.getParent();
+    if (!theClass) { // Objective-C instance variable
+        return;
+    }
     const auto &classRange = theClass->getSourceRange();
     const auto &methodName = field.getName().str();
 
-- 
2.43.0


From ac9569748d0f81b0df09c4f3cdbf1222f1e43a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:37 +0000
Subject: [PATCH 69/70] fix: don't crash if QT_NAMESPACE is not defined as an
 identifier

---
 src/AccessSpecifierManager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/AccessSpecifierManager.cpp b/src/AccessSpecifierManager.cpp
index 07b8303..8ae764f 100644
--- a/src/AccessSpecifierManager.cpp
+++ b/src/AccessSpecifierManager.cpp
@@ -121,7 +121,7 @@ public:
         IdentifierInfo *ii = MacroNameTok.getIdentifierInfo();
         if (ii && ii->getName() == "QT_NAMESPACE") {
             const auto tokens = MD->getDefinition().getMacroInfo()->tokens();
-            if (tokens.size() == 1) {
+            if (tokens.size() == 1 && tokens.front().getIdentifierInfo()) {
                 m_qtNamespace = tokens.front().getIdentifierInfo()->getName();
             }
         }
-- 
2.43.0


From f019236985d3685661e1f93c90b7a0a6bd0f7979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:34 +0000
Subject: [PATCH 70/70] fix: don't crash on calls through pointers to members
 in skipped-base-method

---
 src/checks/level1/skipped-base-method.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/checks/level1/skipped-base-method.cpp b/src/checks/level1/skipped-base-method.cpp
index 532f881..7a3cea6 100644
--- a/src/checks/level1/skipped-base-method.cpp
+++ b/src/checks/level1/skipped-base-method.cpp
@@ -24,7 +24,7 @@ using namespace clang;
 void SkippedBaseMethod::VisitStmt(clang::Stmt *stmt)
 {
     auto *memberCall = dyn_cast<CXXMemberCallExpr>(stmt);
-    if (!memberCall) {
+    if (!memberCall || !memberCall->getMethodDecl()) { // There's no method for calls through pointers to members
         return;
     }
 
-- 
2.43.0

