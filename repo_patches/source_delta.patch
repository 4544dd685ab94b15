From 9475dcaa7bb0e394309746c3960f67b7c102508a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:46 +0000
Subject: [PATCH 01/21] fix: inline value of a short option in a cluster was
 counted twice and kept the defaults

---
 single_include/blet/args.h | 2 --
 src/args.cpp               | 2 --
 2 files changed, 4 deletions(-)

diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index 64b1326..87da6be 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -2921,8 +2921,6 @@ inline void Args::parseShortArgument_(int maxIndex, char* argv[], int* index) {
                              (*(it->second))->type_ == Argument::MULTI_NUMBER_OPTION)) {
             hasArg = true;
             arg = options.substr(i + 1, options.size() - i);
-            (*(it->second))->isExist_ = true;
-            ++(*(it->second))->count_;
             parseArgument_(maxIndex, argv, index, hasArg, charOption.c_str(), arg.c_str(), *(it->second));
             return;
         }
diff --git a/src/args.cpp b/src/args.cpp
index 3d2399b..65be8fc 100644
--- a/src/args.cpp
+++ b/src/args.cpp
@@ -367,8 +367,6 @@ void Args::parseShortArgument_(int maxIndex, char* argv[], int* index) {
                              (*(it->second))->type_ == Argument::MULTI_NUMBER_OPTION)) {
             hasArg = true;
             arg = options.substr(i + 1, options.size() - i);
-            (*(it->second))->isExist_ = true;
-            ++(*(it->second))->count_;
             parseArgument_(maxIndex, argv, index, hasArg, charOption.c_str(), arg.c_str(), *(it->second));
             return;
         }
-- 
2.43.0


From ee962d47ad1d6ea8f55d269d6b5279d6d3457846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:21 +0000
Subject: [PATCH 02/21] fix: addArgument checked only the first flag for
 duplicates

---
 single_include/blet/args.h | 4 ++--
 src/args.cpp               | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index 87da6be..aec35f3 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -2793,8 +2793,8 @@ inline Argument& Args::addArgument(const Vector& nameOrFlags) {
 
         for (std::size_t i = 0; i < nameOrFlags.size(); ++i) {
             Argument::validFormatFlag_(nameOrFlags[i].c_str());
-            if (argumentFromName_.find(nameOrFlags.front()) != argumentFromName_.end()) {
-                throw ArgumentException(nameOrFlags.front().c_str(), "invalid flag already exist");
+            if (argumentFromName_.find(nameOrFlags[i]) != argumentFromName_.end()) {
+                throw ArgumentException(nameOrFlags[i].c_str(), "invalid flag already exist");
             }
             if (std::find(newFlags.begin(), newFlags.end(), nameOrFlags[i]) == newFlags.end()) {
                 newFlags.push_back(nameOrFlags[i]);
diff --git a/src/args.cpp b/src/args.cpp
index 65be8fc..157627c 100644
--- a/src/args.cpp
+++ b/src/args.cpp
@@ -239,8 +239,8 @@ Argument& Args::addArgument(const Vector& nameOrFlags) {
 
         for (std::size_t i = 0; i < nameOrFlags.size(); ++i) {
             Argument::validFormatFlag_(nameOrFlags[i].c_str());
-            if (argumentFromName_.find(nameOrFlags.front()) != argumentFromName_.end()) {
-                throw ArgumentException(nameOrFlags.front().c_str(), "invalid flag already exist");
+            if (argumentFromName_.find(nameOrFlags[i]) != argumentFromName_.end()) {
+                throw ArgumentException(nameOrFlags[i].c_str(), "invalid flag already exist");
             }
             if (std::find(newFlags.begin(), newFlags.end(), nameOrFlags[i]) == newFlags.end()) {
                 newFlags.push_back(nameOrFlags[i]);
-- 
2.43.0


From 2a3469672aa14f9a24bd00bd6e9226ce38343c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:57 +0000
Subject: [PATCH 03/21] fix: parse again restores the defaults and forgets the
 previous values

---
 single_include/blet/args.h | 17 ++++++-----------
 src/args.cpp               |  1 +
 src/argument.cpp           | 16 +++++-----------
 3 files changed, 12 insertions(+), 22 deletions(-)

diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index aec35f3..1a9685c 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -2619,6 +2619,7 @@ inline void Args::parseArguments(int argc, char* argv[]) {
     for (std::list<Argument*>::iterator it = arguments_.begin(); it != arguments_.end(); ++it) {
         (*it)->clear_();
     }
+    additionalArguments_.clear();
     // check help option exists
     if (helpOption_ == NULL) {
         const std::map<std::string, blet::args::Argument**>::const_iterator cith = argumentFromName_.find("-h");
@@ -3352,7 +3353,7 @@ inline Argument::Argument(const Argument& rhs) :
     validDeletable_(rhs.validDeletable_),
     this_(rhs.this_),
     action_(rhs.action_),
-    defaults_() {}
+    defaults_(rhs.defaults_) {}
 
 inline Argument::~Argument() {
     if (valid_ != NULL && validDeletable_) {
@@ -3761,6 +3762,7 @@ inline void Argument::defaultsConstructor_() {
                 throw ArgumentException(nameOrFlags_.front().c_str(),
                                         "invalid number of argument with number of default argument");
             }
+            default_ = "";
             for (std::size_t i = 0; i < defaults_.size() / nargs_; ++i) {
                 if (i > 0) {
                     default_ += ", ";
@@ -3790,16 +3792,9 @@ inline void Argument::clear_() {
     number_ = 0.0;
     count_ = 0;
     isExist_ = false;
-    for (std::size_t i = 0; i < size(); ++i) {
-        at(i).argument_ = at(i).default_;
-        at(i).isNumber_ = false;
-        at(i).number_ = 0.0;
-        for (std::size_t j = 0; j < at(i).size(); ++j) {
-            at(i).at(j).argument_ = at(i).at(j).default_;
-            at(i).at(j).isNumber_ = false;
-            at(i).at(j).number_ = 0.0;
-        }
-    }
+    // remove the values of the previous parsing and restore the defaults values
+    clear();
+    defaultsConstructor_();
 }
 
 } // namespace args
diff --git a/src/args.cpp b/src/args.cpp
index 157627c..7d76c01 100644
--- a/src/args.cpp
+++ b/src/args.cpp
@@ -65,6 +65,7 @@ void Args::parseArguments(int argc, char* argv[]) {
     for (std::list<Argument*>::iterator it = arguments_.begin(); it != arguments_.end(); ++it) {
         (*it)->clear_();
     }
+    additionalArguments_.clear();
     // check help option exists
     if (helpOption_ == NULL) {
         const std::map<std::string, blet::args::Argument**>::const_iterator cith = argumentFromName_.find("-h");
diff --git a/src/argument.cpp b/src/argument.cpp
index e5607e7..dcd5828 100644
--- a/src/argument.cpp
+++ b/src/argument.cpp
@@ -135,7 +135,7 @@ Argument::Argument(const Argument& rhs) :
     validDeletable_(rhs.validDeletable_),
     this_(rhs.this_),
     action_(rhs.action_),
-    defaults_() {}
+    defaults_(rhs.defaults_) {}
 
 Argument::~Argument() {
     if (valid_ != NULL && validDeletable_) {
@@ -544,6 +544,7 @@ void Argument::defaultsConstructor_() {
                 throw ArgumentException(nameOrFlags_.front().c_str(),
                                         "invalid number of argument with number of default argument");
             }
+            default_ = "";
             for (std::size_t i = 0; i < defaults_.size() / nargs_; ++i) {
                 if (i > 0) {
                     default_ += ", ";
@@ -573,16 +574,9 @@ void Argument::clear_() {
     number_ = 0.0;
     count_ = 0;
     isExist_ = false;
-    for (std::size_t i = 0; i < size(); ++i) {
-        at(i).argument_ = at(i).default_;
-        at(i).isNumber_ = false;
-        at(i).number_ = 0.0;
-        for (std::size_t j = 0; j < at(i).size(); ++j) {
-            at(i).at(j).argument_ = at(i).at(j).default_;
-            at(i).at(j).isNumber_ = false;
-            at(i).at(j).number_ = 0.0;
-        }
-    }
+    // remove the values of the previous parsing and restore the defaults values
+    clear();
+    defaultsConstructor_();
 }
 
 } // namespace args
-- 
2.43.0


From 9e22032b05915ea9db7538506a469b01b168e00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:29 +0000
Subject: [PATCH 04/21] fix: command line values of positional lists replace
 the defaults

---
 single_include/blet/args.h | 3 +++
 src/args.cpp               | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index 1a9685c..bbf9236 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -3156,12 +3156,14 @@ inline void Args::parsePositionnalArgument_(int argc, char* argv[], int* index,
             if (*index + argument.nargs_ > static_cast<unsigned int>(argc)) {
                 throw ParseArgumentException(argument.nameOrFlags_.front().c_str(), "bad number of argument");
             }
+            argument.clear();
             for (unsigned int i = *index; i < (*index + argument.nargs_); ++i) {
                 argument.push_back(argv[i]);
             }
             *index += argument.nargs_ - 1;
         }
         else if (argument.type_ == Argument::INFINITE_POSITIONAL_ARGUMENT) {
+            argument.clear();
             std::size_t countArg = 0;
             for (int i = *index; i < argc; ++i) {
                 if (!hasEndOption && endOfInfiniteArgument_(argv[i])) {
@@ -3173,6 +3175,7 @@ inline void Args::parsePositionnalArgument_(int argc, char* argv[], int* index,
             *index += countArg - 1;
         }
         else if (argument.type_ == Argument::INFINITE_NUMBER_POSITIONAL_ARGUMENT) {
+            argument.clear();
             std::size_t countArg = 0;
             for (int i = *index; i < argc; i += argument.nargs_) {
                 if (!hasEndOption && endOfInfiniteArgument_(argv[i])) {
diff --git a/src/args.cpp b/src/args.cpp
index 7d76c01..01edd1f 100644
--- a/src/args.cpp
+++ b/src/args.cpp
@@ -602,12 +602,14 @@ void Args::parsePositionnalArgument_(int argc, char* argv[], int* index, bool ha
             if (*index + argument.nargs_ > static_cast<unsigned int>(argc)) {
                 throw ParseArgumentException(argument.nameOrFlags_.front().c_str(), "bad number of argument");
             }
+            argument.clear();
             for (unsigned int i = *index; i < (*index + argument.nargs_); ++i) {
                 argument.push_back(argv[i]);
             }
             *index += argument.nargs_ - 1;
         }
         else if (argument.type_ == Argument::INFINITE_POSITIONAL_ARGUMENT) {
+            argument.clear();
             std::size_t countArg = 0;
             for (int i = *index; i < argc; ++i) {
                 if (!hasEndOption && endOfInfiniteArgument_(argv[i])) {
@@ -619,6 +621,7 @@ void Args::parsePositionnalArgument_(int argc, char* argv[], int* index, bool ha
             *index += countArg - 1;
         }
         else if (argument.type_ == Argument::INFINITE_NUMBER_POSITIONAL_ARGUMENT) {
+            argument.clear();
             std::size_t countArg = 0;
             for (int i = *index; i < argc; i += argument.nargs_) {
                 if (!hasEndOption && endOfInfiniteArgument_(argv[i])) {
-- 
2.43.0


From 19c931463f57b198fcd2f58c4426371f3d44cd4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:04 +0000
Subject: [PATCH 05/21] fix: dest on the help or version option left a dangling
 pointer

---
 include/blet/args/argument.h | 11 +++++------
 single_include/blet/args.h   | 23 +++++++++++++++++------
 src/argument.cpp             | 12 ++++++++++++
 3 files changed, 34 insertions(+), 12 deletions(-)

diff --git a/include/blet/args/argument.h b/include/blet/args/argument.h
index a2cd6ad..bb68735 100644
--- a/include/blet/args/argument.h
+++ b/include/blet/args/argument.h
@@ -662,6 +662,8 @@ class Argument : public ArgumentElement {
 
     void clear_();
 
+    void replace_(Argument* argument);
+
     static void validFormatFlag_(const char* flag);
 
     static bool compareOption_(const Argument* first, const Argument* second);
@@ -692,8 +694,7 @@ class ArgumentType : public Argument {
         Argument(*argument),
         dest_(dest),
         toDestCustom_(toDest) {
-        delete argument;
-        *this_ = this;
+        replace_(argument);
     }
     virtual ~ArgumentType() {}
 
@@ -727,8 +728,7 @@ class ArgumentVectorType : public Argument {
         Argument(*argument),
         dest_(dest),
         toDestCustom_(toDest) {
-        delete argument;
-        *this_ = this;
+        replace_(argument);
     }
     virtual ~ArgumentVectorType() {}
 
@@ -799,8 +799,7 @@ class ArgumentVectorVectorType : public Argument {
         Argument(*argument),
         dest_(dest),
         toDestCustom_(toDest) {
-        delete argument;
-        *this_ = this;
+        replace_(argument);
     }
     virtual ~ArgumentVectorVectorType() {}
 
diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index bbf9236..c2fdc6a 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -1213,6 +1213,8 @@ class Argument : public ArgumentElement {
 
     void clear_();
 
+    void replace_(Argument* argument);
+
     static void validFormatFlag_(const char* flag);
 
     static bool compareOption_(const Argument* first, const Argument* second);
@@ -1243,8 +1245,7 @@ class ArgumentType : public Argument {
         Argument(*argument),
         dest_(dest),
         toDestCustom_(toDest) {
-        delete argument;
-        *this_ = this;
+        replace_(argument);
     }
     inline virtual ~ArgumentType() {}
 
@@ -1278,8 +1279,7 @@ class ArgumentVectorType : public Argument {
         Argument(*argument),
         dest_(dest),
         toDestCustom_(toDest) {
-        delete argument;
-        *this_ = this;
+        replace_(argument);
     }
     inline virtual ~ArgumentVectorType() {}
 
@@ -1350,8 +1350,7 @@ class ArgumentVectorVectorType : public Argument {
         Argument(*argument),
         dest_(dest),
         toDestCustom_(toDest) {
-        delete argument;
-        *this_ = this;
+        replace_(argument);
     }
     inline virtual ~ArgumentVectorVectorType() {}
 
@@ -3800,6 +3799,18 @@ inline void Argument::clear_() {
     defaultsConstructor_();
 }
 
+inline void Argument::replace_(Argument* argument) {
+    // keep the help and version option references
+    if (args_.helpOption_ == argument) {
+        args_.helpOption_ = this;
+    }
+    if (args_.versionOption_ == argument) {
+        args_.versionOption_ = this;
+    }
+    delete argument;
+    *this_ = this;
+}
+
 } // namespace args
 
 } // namespace blet
diff --git a/src/argument.cpp b/src/argument.cpp
index dcd5828..c08de50 100644
--- a/src/argument.cpp
+++ b/src/argument.cpp
@@ -579,6 +579,18 @@ void Argument::clear_() {
     defaultsConstructor_();
 }
 
+void Argument::replace_(Argument* argument) {
+    // keep the help and version option references
+    if (args_.helpOption_ == argument) {
+        args_.helpOption_ = this;
+    }
+    if (args_.versionOption_ == argument) {
+        args_.versionOption_ = this;
+    }
+    delete argument;
+    *this_ = this;
+}
+
 } // namespace args
 
 } // namespace blet
-- 
2.43.0


From 7e8d5f6b39f450550ce5ec5d5f2be16e3b59991a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:38 +0000
Subject: [PATCH 06/21] fix: a copy of an argument deleted the validator of the
 original

---
 single_include/blet/args.h | 2 +-
 src/argument.cpp           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index c2fdc6a..a9194bc 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -3352,7 +3352,7 @@ inline Argument::Argument(const Argument& rhs) :
     help_(rhs.help_),
     metavar_(rhs.metavar_),
     valid_(rhs.valid_),
-    validDeletable_(rhs.validDeletable_),
+    validDeletable_(false), // the validator stays the property of the copied argument
     this_(rhs.this_),
     action_(rhs.action_),
     defaults_(rhs.defaults_) {}
diff --git a/src/argument.cpp b/src/argument.cpp
index c08de50..e2320a7 100644
--- a/src/argument.cpp
+++ b/src/argument.cpp
@@ -132,7 +132,7 @@ Argument::Argument(const Argument& rhs) :
     help_(rhs.help_),
     metavar_(rhs.metavar_),
     valid_(rhs.valid_),
-    validDeletable_(rhs.validDeletable_),
+    validDeletable_(false), // the validator stays the property of the copied argument
     this_(rhs.this_),
     action_(rhs.action_),
     defaults_(rhs.defaults_) {}
-- 
2.43.0


From 98cf8f2a9276fdfc2b1bb516b36a92c7ecbd64a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:08 +0000
Subject: [PATCH 07/21] fix: removeArguments with the same name twice used
 freed memory

---
 single_include/blet/args.h | 4 +++-
 src/args.cpp               | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index a9194bc..1bece3e 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -2827,7 +2827,9 @@ inline void Args::removeArguments(const Vector& nameOrFlags) {
         if (it == argumentFromName_.end()) {
             throw ArgumentException(nameOrFlags[i].c_str(), "argument not found");
         }
-        vIt.push_back(it);
+        if (std::find(vIt.begin(), vIt.end(), it) == vIt.end()) {
+            vIt.push_back(it);
+        }
     }
     for (std::size_t i = 0; i < vIt.size(); ++i) {
         Argument** ppArgument = vIt[i]->second;
diff --git a/src/args.cpp b/src/args.cpp
index 01edd1f..3b74f2d 100644
--- a/src/args.cpp
+++ b/src/args.cpp
@@ -274,7 +274,9 @@ void Args::removeArguments(const Vector& nameOrFlags) {
         if (it == argumentFromName_.end()) {
             throw ArgumentException(nameOrFlags[i].c_str(), "argument not found");
         }
-        vIt.push_back(it);
+        if (std::find(vIt.begin(), vIt.end(), it) == vIt.end()) {
+            vIt.push_back(it);
+        }
     }
     for (std::size_t i = 0; i < vIt.size(); ++i) {
         Argument** ppArgument = vIt[i]->second;
-- 
2.43.0


From da99850367d126b0796a4ce78e4ea6cfef5df2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:16 +0000
Subject: [PATCH 08/21] fix: const char* elements of a vector destination were
 dangling

---
 include/blet/args/argument.h | 4 ++--
 single_include/blet/args.h   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/blet/args/argument.h b/include/blet/args/argument.h
index bb68735..3de3898 100644
--- a/include/blet/args/argument.h
+++ b/include/blet/args/argument.h
@@ -253,9 +253,9 @@ class ArgumentElement : public std::vector<ArgumentElement> {
     /**
      * @brief Get the string argument
      *
-     * @return std::string
+     * @return const std::string&
      */
-    std::string getString() const {
+    const std::string& getString() const {
         return argument_;
     }
 
diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index 1bece3e..8bce311 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -806,7 +806,7 @@ class ArgumentElement : public std::vector<ArgumentElement> {
      *
      * @return std::string
      */
-    inline std::string getString() const {
+    inline const std::string& getString() const {
         return argument_;
     }
 
-- 
2.43.0


From a707b39bd0346ea257e9e82c374667bb1468171e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:49 +0000
Subject: [PATCH 09/21] fix: ValidNumber accepted an empty string

---
 single_include/blet/args.h | 2 +-
 src/valid.cpp              | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index 8bce311..0296de4 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -4331,7 +4331,7 @@ inline bool ValidNumber::isValid(std::vector<std::string>& args) {
     for (std::size_t i = 0; i < args.size(); ++i) {
         char* endPtr = NULL;
         ::strtod(args[i].c_str(), &endPtr);
-        if (endPtr != NULL && endPtr[0] != '\0') {
+        if (endPtr == args[i].c_str() || endPtr[0] != '\0') {
             std::ostringstream oss("");
             oss << "\"" << args[i] << "\" is not a number";
             throw ParseArgumentValidException(oss.str().c_str());
diff --git a/src/valid.cpp b/src/valid.cpp
index 28c6553..e1e70af 100644
--- a/src/valid.cpp
+++ b/src/valid.cpp
@@ -49,7 +49,7 @@ bool ValidNumber::isValid(std::vector<std::string>& args) {
     for (std::size_t i = 0; i < args.size(); ++i) {
         char* endPtr = NULL;
         ::strtod(args[i].c_str(), &endPtr);
-        if (endPtr != NULL && endPtr[0] != '\0') {
+        if (endPtr == args[i].c_str() || endPtr[0] != '\0') {
             std::ostringstream oss("");
             oss << "\"" << args[i] << "\" is not a number";
             throw ParseArgumentValidException(oss.str().c_str());
-- 
2.43.0


From ded7d9b122c55756317fe3235216f246e6ffb579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:26 +0000
Subject: [PATCH 10/21] fix: argv[0] is not an option and can be absent

---
 include/blet/args/utils.h  | 2 +-
 single_include/blet/args.h | 4 ++--
 src/args.cpp               | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/blet/args/utils.h b/include/blet/args/utils.h
index ff4fda2..3d57969 100644
--- a/include/blet/args/utils.h
+++ b/include/blet/args/utils.h
@@ -89,7 +89,7 @@ inline bool isEndOption(const char* arg) {
  * @return int
  */
 inline int endOptionIndex(int argc, char** argv) {
-    for (int i = 0; i < argc; ++i) {
+    for (int i = 1; i < argc; ++i) {
         if (isEndOption(argv[i])) {
             return i;
         }
diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index 0296de4..fba2ed4 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -2538,7 +2538,7 @@ inline bool isEndOption(const char* arg) {
  * @return int
  */
 inline int endOptionIndex(int argc, char** argv) {
-    for (int i = 0; i < argc; ++i) {
+    for (int i = 1; i < argc; ++i) {
         if (isEndOption(argv[i])) {
             return i;
         }
@@ -2637,7 +2637,7 @@ inline void Args::parseArguments(int argc, char* argv[]) {
         addArgument(flags).action(Action::HELP).help("show this help message and exit");
     }
     // get argv[0] if filename is empty
-    if (binaryName_.empty()) {
+    if (binaryName_.empty() && argc > 0) {
         binaryName_ = argv[0];
     }
     // save index of "--" if exist
diff --git a/src/args.cpp b/src/args.cpp
index 3b74f2d..fbbda49 100644
--- a/src/args.cpp
+++ b/src/args.cpp
@@ -84,7 +84,7 @@ void Args::parseArguments(int argc, char* argv[]) {
         addArgument(flags).action(Action::HELP).help("show this help message and exit");
     }
     // get argv[0] if filename is empty
-    if (binaryName_.empty()) {
+    if (binaryName_.empty() && argc > 0) {
         binaryName_ = argv[0];
     }
     // save index of "--" if exist
-- 
2.43.0


From 69217d70b0c4b453276b2a5c5007ddfacf626292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:06 +0000
Subject: [PATCH 11/21] fix: missing required positional list was reported as
 an option

---
 single_include/blet/args.h | 2 +-
 src/args.cpp               | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index fba2ed4..dce116e 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -2688,7 +2688,7 @@ inline void Args::parseArguments(int argc, char* argv[]) {
     std::list<Argument*>::iterator it;
     for (it = arguments_.begin(); it != arguments_.end(); ++it) {
         if ((*it)->isRequired_ && (*it)->isExist_ == false) {
-            if ((*it)->type_ == Argument::POSITIONAL_ARGUMENT) {
+            if ((*it)->isPositionnalArgument_()) {
                 throw ParseArgumentRequiredException((*it)->nameOrFlags_.front().c_str(), "argument is required");
             }
             else {
diff --git a/src/args.cpp b/src/args.cpp
index fbbda49..02737ac 100644
--- a/src/args.cpp
+++ b/src/args.cpp
@@ -135,7 +135,7 @@ void Args::parseArguments(int argc, char* argv[]) {
     std::list<Argument*>::iterator it;
     for (it = arguments_.begin(); it != arguments_.end(); ++it) {
         if ((*it)->isRequired_ && (*it)->isExist_ == false) {
-            if ((*it)->type_ == Argument::POSITIONAL_ARGUMENT) {
+            if ((*it)->isPositionnalArgument_()) {
                 throw ParseArgumentRequiredException((*it)->nameOrFlags_.front().c_str(), "argument is required");
             }
             else {
-- 
2.43.0


From 1e7019d17e87e80bc9dd045790f69ad145352b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:47 +0000
Subject: [PATCH 12/21] fix: nargs 0 hid the STORE_FALSE, HELP and VERSION
 actions

---
 single_include/blet/args.h | 8 ++++----
 src/argument.cpp           | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index dce116e..ac18503 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -3663,10 +3663,6 @@ inline void Argument::typeConstructor_() {
                                     "positional argument cannot use with this action or this nargs");
         }
     }
-    else if (nargs_ == 0 || action_ == Action::STORE_TRUE) {
-        nargs_ = 0;
-        type_ = Argument::BOOLEAN_OPTION;
-    }
     else if (action_ == Action::STORE_FALSE) {
         nargs_ = 0;
         type_ = Argument::REVERSE_BOOLEAN_OPTION;
@@ -3691,6 +3687,10 @@ inline void Argument::typeConstructor_() {
         nargs_ = 0;
         type_ = Argument::VERSION_OPTION;
     }
+    else if (nargs_ == 0 || action_ == Action::STORE_TRUE) {
+        nargs_ = 0;
+        type_ = Argument::BOOLEAN_OPTION;
+    }
     // is simple
     else if (nargs_ == 1 && action_ == Action::NONE) {
         type_ = Argument::SIMPLE_OPTION;
diff --git a/src/argument.cpp b/src/argument.cpp
index e2320a7..ab1e2d7 100644
--- a/src/argument.cpp
+++ b/src/argument.cpp
@@ -441,10 +441,6 @@ void Argument::typeConstructor_() {
                                     "positional argument cannot use with this action or this nargs");
         }
     }
-    else if (nargs_ == 0 || action_ == Action::STORE_TRUE) {
-        nargs_ = 0;
-        type_ = Argument::BOOLEAN_OPTION;
-    }
     else if (action_ == Action::STORE_FALSE) {
         nargs_ = 0;
         type_ = Argument::REVERSE_BOOLEAN_OPTION;
@@ -469,6 +465,10 @@ void Argument::typeConstructor_() {
         nargs_ = 0;
         type_ = Argument::VERSION_OPTION;
     }
+    else if (nargs_ == 0 || action_ == Action::STORE_TRUE) {
+        nargs_ = 0;
+        type_ = Argument::BOOLEAN_OPTION;
+    }
     // is simple
     else if (nargs_ == 1 && action_ == Action::NONE) {
         type_ = Argument::SIMPLE_OPTION;
-- 
2.43.0


From a7b7f4db7f5cc455b42d5de3feb291ca7d8ca818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:23 +0000
Subject: [PATCH 13/21] fix: action on another argument disabled the help or
 version option

---
 single_include/blet/args.h | 4 ++--
 src/argument.cpp           | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index ac18503..075add8 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -3473,11 +3473,11 @@ inline Argument& Argument::flag(const char* flag__) {
 
 inline Argument& Argument::action(enum Action::eAction action__) {
     // reset help option
-    if (action_ == Action::HELP) {
+    if (args_.helpOption_ == this) {
         args_.helpOption_ = NULL;
     }
     // reset version option
-    if (action_ == Action::VERSION) {
+    if (args_.versionOption_ == this) {
         args_.versionOption_ = NULL;
     }
     action_ = action__;
diff --git a/src/argument.cpp b/src/argument.cpp
index ab1e2d7..c2bad56 100644
--- a/src/argument.cpp
+++ b/src/argument.cpp
@@ -251,11 +251,11 @@ Argument& Argument::flag(const char* flag__) {
 
 Argument& Argument::action(enum Action::eAction action__) {
     // reset help option
-    if (action_ == Action::HELP) {
+    if (args_.helpOption_ == this) {
         args_.helpOption_ = NULL;
     }
     // reset version option
-    if (action_ == Action::VERSION) {
+    if (args_.versionOption_ == this) {
         args_.versionOption_ = NULL;
     }
     action_ = action__;
-- 
2.43.0


From 7c92c22282272acc7935cd7f1e53ec8472e723d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:03 +0000
Subject: [PATCH 14/21] fix: an empty list argument was seen as a list of one
 empty string

---
 include/blet/args/argument.h | 25 +++++++++++++++++++++----
 single_include/blet/args.h   | 29 +++++++++++++++++++++++------
 src/argument.cpp             |  4 ++--
 3 files changed, 46 insertions(+), 12 deletions(-)

diff --git a/include/blet/args/argument.h b/include/blet/args/argument.h
index 3de3898..5ec9682 100644
--- a/include/blet/args/argument.h
+++ b/include/blet/args/argument.h
@@ -646,6 +646,23 @@ class Argument : public ArgumentElement {
         }
     }
 
+    bool isListType_() const {
+        switch (type_) {
+            case NUMBER_OPTION:
+            case INFINITE_OPTION:
+            case MULTI_OPTION:
+            case MULTI_INFINITE_OPTION:
+            case MULTI_NUMBER_OPTION:
+            case MULTI_NUMBER_INFINITE_OPTION:
+            case NUMBER_POSITIONAL_ARGUMENT:
+            case INFINITE_POSITIONAL_ARGUMENT:
+            case INFINITE_NUMBER_POSITIONAL_ARGUMENT:
+                return true;
+            default:
+                return false;
+        }
+    }
+
     virtual void toDest_() {
         /* do nothing */
     }
@@ -748,7 +765,7 @@ class ArgumentVectorType : public Argument {
                     }
                 }
             }
-            else {
+            else if (!isListType_()) {
                 arguments.push_back(argument_);
             }
             toDestCustom_(dest_, isExist_, arguments);
@@ -770,7 +787,7 @@ class ArgumentVectorType : public Argument {
                     }
                 }
             }
-            else {
+            else if (!isListType_()) {
                 T dest;
                 if (type_ == BOOLEAN_OPTION) {
                     boolTo(isExist_, dest);
@@ -821,7 +838,7 @@ class ArgumentVectorVectorType : public Argument {
                     arguments.push_back(tmpVector);
                 }
             }
-            else {
+            else if (!isListType_()) {
                 std::vector<std::string> tmpVector;
                 tmpVector.push_back(argument_);
                 arguments.push_back(tmpVector);
@@ -847,7 +864,7 @@ class ArgumentVectorVectorType : public Argument {
                     dest_.push_back(vectorDest);
                 }
             }
-            else {
+            else if (!isListType_()) {
                 T dest;
                 if (type_ == BOOLEAN_OPTION) {
                     boolTo(isExist_, dest);
diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index 075add8..13cb398 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -1197,6 +1197,23 @@ class Argument : public ArgumentElement {
         }
     }
 
+    inline bool isListType_() const {
+        switch (type_) {
+            case NUMBER_OPTION:
+            case INFINITE_OPTION:
+            case MULTI_OPTION:
+            case MULTI_INFINITE_OPTION:
+            case MULTI_NUMBER_OPTION:
+            case MULTI_NUMBER_INFINITE_OPTION:
+            case NUMBER_POSITIONAL_ARGUMENT:
+            case INFINITE_POSITIONAL_ARGUMENT:
+            case INFINITE_NUMBER_POSITIONAL_ARGUMENT:
+                return true;
+            default:
+                return false;
+        }
+    }
+
     inline virtual void toDest_() {
         /* do nothing */
     }
@@ -1299,7 +1316,7 @@ class ArgumentVectorType : public Argument {
                     }
                 }
             }
-            else {
+            else if (!isListType_()) {
                 arguments.push_back(argument_);
             }
             toDestCustom_(dest_, isExist_, arguments);
@@ -1321,7 +1338,7 @@ class ArgumentVectorType : public Argument {
                     }
                 }
             }
-            else {
+            else if (!isListType_()) {
                 T dest;
                 if (type_ == BOOLEAN_OPTION) {
                     boolTo(isExist_, dest);
@@ -1372,7 +1389,7 @@ class ArgumentVectorVectorType : public Argument {
                     arguments.push_back(tmpVector);
                 }
             }
-            else {
+            else if (!isListType_()) {
                 std::vector<std::string> tmpVector;
                 tmpVector.push_back(argument_);
                 arguments.push_back(tmpVector);
@@ -1398,7 +1415,7 @@ class ArgumentVectorVectorType : public Argument {
                     dest_.push_back(vectorDest);
                 }
             }
-            else {
+            else if (!isListType_()) {
                 T dest;
                 if (type_ == BOOLEAN_OPTION) {
                     boolTo(isExist_, dest);
@@ -3395,7 +3412,7 @@ inline std::string Argument::getString() const {
                 }
             }
         }
-        else {
+        else if (!isListType_()) {
             oss << argument_;
         }
         ret = oss.str();
@@ -3599,7 +3616,7 @@ inline void Argument::toNumber_() {
                 }
             }
         }
-        else {
+        else if (!isListType_()) {
             std::stringstream ss(argument_);
             isNumber_ = static_cast<bool>(ss >> number_);
         }
diff --git a/src/argument.cpp b/src/argument.cpp
index c2bad56..1dcb175 100644
--- a/src/argument.cpp
+++ b/src/argument.cpp
@@ -173,7 +173,7 @@ std::string Argument::getString() const {
                 }
             }
         }
-        else {
+        else if (!isListType_()) {
             oss << argument_;
         }
         ret = oss.str();
@@ -377,7 +377,7 @@ void Argument::toNumber_() {
                 }
             }
         }
-        else {
+        else if (!isListType_()) {
             std::stringstream ss(argument_);
             isNumber_ = static_cast<bool>(ss >> number_);
         }
-- 
2.43.0


From 99b52f5e543a095564bf3e93296d14d6d98b35b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:13 +0000
Subject: [PATCH 15/21] fix: a rejected action, nargs or defaults left the
 argument half changed

A positional argument whose nargs(0) was rejected made the next parse
loop for ever, and rejected defaults made every later parse fail.
---
 include/blet/args/argument.h |  9 +++---
 single_include/blet/args.h   | 61 ++++++++++++++++++++++++++----------
 src/argument.cpp             | 52 +++++++++++++++++++++++-------
 3 files changed, 88 insertions(+), 34 deletions(-)

diff --git a/include/blet/args/argument.h b/include/blet/args/argument.h
index 5ec9682..f31c653 100644
--- a/include/blet/args/argument.h
+++ b/include/blet/args/argument.h
@@ -512,9 +512,7 @@ class Argument : public ArgumentElement {
      * @throw ArgumentException
      */
     Argument& nargs(std::size_t nargs__) {
-        nargs_ = nargs__;
-        typeConstructor_();
-        defaultsConstructor_();
+        change_(action_, nargs__, defaults_);
         return *this;
     }
 
@@ -527,8 +525,7 @@ class Argument : public ArgumentElement {
      * @throw ArgumentException
      */
     Argument& defaults(const Vector& defaults__) {
-        defaults_ = defaults__;
-        defaultsConstructor_();
+        change_(action_, nargs_, defaults__);
         return *this;
     }
 
@@ -675,6 +672,8 @@ class Argument : public ArgumentElement {
 
     void defaultsConstructor_();
 
+    void change_(enum Action::eAction action__, std::size_t nargs__, const std::vector<std::string>& defaults__);
+
     void sortNameOrFlags_();
 
     void clear_();
diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index 13cb398..45add53 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -1063,9 +1063,7 @@ class Argument : public ArgumentElement {
      * @throw ArgumentException
      */
     inline Argument& nargs(std::size_t nargs__) {
-        nargs_ = nargs__;
-        typeConstructor_();
-        defaultsConstructor_();
+        change_(action_, nargs__, defaults_);
         return *this;
     }
 
@@ -1078,8 +1076,7 @@ class Argument : public ArgumentElement {
      * @throw ArgumentException
      */
     inline Argument& defaults(const Vector& defaults__) {
-        defaults_ = defaults__;
-        defaultsConstructor_();
+        change_(action_, nargs_, defaults__);
         return *this;
     }
 
@@ -1226,6 +1223,8 @@ class Argument : public ArgumentElement {
 
     void defaultsConstructor_();
 
+    void change_(enum Action::eAction action__, std::size_t nargs__, const std::vector<std::string>& defaults__);
+
     void sortNameOrFlags_();
 
     void clear_();
@@ -3489,17 +3488,7 @@ inline Argument& Argument::flag(const char* flag__) {
 }
 
 inline Argument& Argument::action(enum Action::eAction action__) {
-    // reset help option
-    if (args_.helpOption_ == this) {
-        args_.helpOption_ = NULL;
-    }
-    // reset version option
-    if (args_.versionOption_ == this) {
-        args_.versionOption_ = NULL;
-    }
-    action_ = action__;
-    typeConstructor_();
-    defaultsConstructor_();
+    change_(action__, nargs_, defaults_);
     return *this;
 }
 
@@ -3740,15 +3729,50 @@ inline void Argument::typeConstructor_() {
     }
 }
 
+inline void Argument::change_(enum Action::eAction action__, std::size_t nargs__,
+                       const std::vector<std::string>& defaults__) {
+    // a rejected declaration leaves the argument as it was
+    const enum Action::eAction previousAction = action_;
+    const std::size_t previousNargs = nargs_;
+    const enum Type previousType = type_;
+    Argument* const previousHelpOption = args_.helpOption_;
+    Argument* const previousVersionOption = args_.versionOption_;
+    std::vector<std::string> previousDefaults(defaults__);
+    defaults_.swap(previousDefaults);
+    try {
+        // reset help option
+        if (args_.helpOption_ == this) {
+            args_.helpOption_ = NULL;
+        }
+        // reset version option
+        if (args_.versionOption_ == this) {
+            args_.versionOption_ = NULL;
+        }
+        action_ = action__;
+        nargs_ = nargs__;
+        typeConstructor_();
+        defaultsConstructor_();
+    }
+    catch (...) {
+        action_ = previousAction;
+        nargs_ = previousNargs;
+        type_ = previousType;
+        defaults_.swap(previousDefaults);
+        args_.helpOption_ = previousHelpOption;
+        args_.versionOption_ = previousVersionOption;
+        throw;
+    }
+}
+
 inline void Argument::defaultsConstructor_() {
     // default arguments
     if (nargs_ > 0 && defaults_.size() > 0) {
-        clear();
         if (type_ == Argument::POSITIONAL_ARGUMENT || type_ == Argument::SIMPLE_OPTION) {
             if (defaults_.size() != nargs_) {
                 throw ArgumentException(nameOrFlags_.front().c_str(),
                                         "invalid number of argument with number of default argument");
             }
+            clear();
             argument_ = defaults_.front();
             default_ = defaults_.front();
         }
@@ -3757,6 +3781,7 @@ inline void Argument::defaultsConstructor_() {
                 throw ArgumentException(nameOrFlags_.front().c_str(),
                                         "invalid number of argument with number of default argument");
             }
+            clear();
             default_ = "";
             for (std::size_t i = 0; i < defaults_.size(); ++i) {
                 if (i > 0) {
@@ -3768,6 +3793,7 @@ inline void Argument::defaultsConstructor_() {
         }
         if (type_ == Argument::INFINITE_POSITIONAL_ARGUMENT || type_ == Argument::MULTI_OPTION ||
             type_ == Argument::INFINITE_OPTION || type_ == Argument::MULTI_INFINITE_OPTION) {
+            clear();
             default_ = "";
             for (std::size_t i = 0; i < defaults_.size(); ++i) {
                 if (i > 0) {
@@ -3783,6 +3809,7 @@ inline void Argument::defaultsConstructor_() {
                 throw ArgumentException(nameOrFlags_.front().c_str(),
                                         "invalid number of argument with number of default argument");
             }
+            clear();
             default_ = "";
             for (std::size_t i = 0; i < defaults_.size() / nargs_; ++i) {
                 if (i > 0) {
diff --git a/src/argument.cpp b/src/argument.cpp
index 1dcb175..e5c4250 100644
--- a/src/argument.cpp
+++ b/src/argument.cpp
@@ -250,17 +250,7 @@ Argument& Argument::flag(const char* flag__) {
 }
 
 Argument& Argument::action(enum Action::eAction action__) {
-    // reset help option
-    if (args_.helpOption_ == this) {
-        args_.helpOption_ = NULL;
-    }
-    // reset version option
-    if (args_.versionOption_ == this) {
-        args_.versionOption_ = NULL;
-    }
-    action_ = action__;
-    typeConstructor_();
-    defaultsConstructor_();
+    change_(action__, nargs_, defaults_);
     return *this;
 }
 
@@ -501,15 +491,50 @@ void Argument::typeConstructor_() {
     }
 }
 
+void Argument::change_(enum Action::eAction action__, std::size_t nargs__,
+                       const std::vector<std::string>& defaults__) {
+    // a rejected declaration leaves the argument as it was
+    const enum Action::eAction previousAction = action_;
+    const std::size_t previousNargs = nargs_;
+    const enum Type previousType = type_;
+    Argument* const previousHelpOption = args_.helpOption_;
+    Argument* const previousVersionOption = args_.versionOption_;
+    std::vector<std::string> previousDefaults(defaults__);
+    defaults_.swap(previousDefaults);
+    try {
+        // reset help option
+        if (args_.helpOption_ == this) {
+            args_.helpOption_ = NULL;
+        }
+        // reset version option
+        if (args_.versionOption_ == this) {
+            args_.versionOption_ = NULL;
+        }
+        action_ = action__;
+        nargs_ = nargs__;
+        typeConstructor_();
+        defaultsConstructor_();
+    }
+    catch (...) {
+        action_ = previousAction;
+        nargs_ = previousNargs;
+        type_ = previousType;
+        defaults_.swap(previousDefaults);
+        args_.helpOption_ = previousHelpOption;
+        args_.versionOption_ = previousVersionOption;
+        throw;
+    }
+}
+
 void Argument::defaultsConstructor_() {
     // default arguments
     if (nargs_ > 0 && defaults_.size() > 0) {
-        clear();
         if (type_ == Argument::POSITIONAL_ARGUMENT || type_ == Argument::SIMPLE_OPTION) {
             if (defaults_.size() != nargs_) {
                 throw ArgumentException(nameOrFlags_.front().c_str(),
                                         "invalid number of argument with number of default argument");
             }
+            clear();
             argument_ = defaults_.front();
             default_ = defaults_.front();
         }
@@ -518,6 +543,7 @@ void Argument::defaultsConstructor_() {
                 throw ArgumentException(nameOrFlags_.front().c_str(),
                                         "invalid number of argument with number of default argument");
             }
+            clear();
             default_ = "";
             for (std::size_t i = 0; i < defaults_.size(); ++i) {
                 if (i > 0) {
@@ -529,6 +555,7 @@ void Argument::defaultsConstructor_() {
         }
         if (type_ == Argument::INFINITE_POSITIONAL_ARGUMENT || type_ == Argument::MULTI_OPTION ||
             type_ == Argument::INFINITE_OPTION || type_ == Argument::MULTI_INFINITE_OPTION) {
+            clear();
             default_ = "";
             for (std::size_t i = 0; i < defaults_.size(); ++i) {
                 if (i > 0) {
@@ -544,6 +571,7 @@ void Argument::defaultsConstructor_() {
                 throw ArgumentException(nameOrFlags_.front().c_str(),
                                         "invalid number of argument with number of default argument");
             }
+            clear();
             default_ = "";
             for (std::size_t i = 0; i < defaults_.size() / nargs_; ++i) {
                 if (i > 0) {
-- 
2.43.0


From 3a457215bdedb2bd9957821630d05f78dbdc8ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:19 +0000
Subject: [PATCH 16/21] fix: running out of memory in a stream was swallowed

A parse could then succeed without its numbers, reject a valid value or
report a truncated message instead of throwing std::bad_alloc.
---
 single_include/blet/args.h | 20 ++++++++++++++++++++
 src/argument.cpp           |  4 ++++
 src/usage.cpp              |  7 +++++++
 src/valid.cpp              |  9 +++++++++
 4 files changed, 40 insertions(+)

diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index 45add53..51fb58e 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -3391,6 +3391,7 @@ inline std::string Argument::getString() const {
     }
     else {
         std::ostringstream oss("");
+        oss.exceptions(std::ios_base::badbit);
         if (!empty()) {
             for (std::size_t i = 0; i < size(); ++i) {
                 if (i > 0) {
@@ -3596,17 +3597,20 @@ inline void Argument::toNumber_() {
                 if (!at(i).empty()) {
                     for (std::size_t j = 0; j < at(i).size(); ++j) {
                         std::stringstream ss(at(i).at(j).argument_);
+                        ss.exceptions(std::ios_base::badbit);
                         at(i).at(j).isNumber_ = static_cast<bool>(ss >> at(i).at(j).number_);
                     }
                 }
                 else {
                     std::stringstream ss(at(i).argument_);
+                    ss.exceptions(std::ios_base::badbit);
                     at(i).isNumber_ = static_cast<bool>(ss >> at(i).number_);
                 }
             }
         }
         else if (!isListType_()) {
             std::stringstream ss(argument_);
+            ss.exceptions(std::ios_base::badbit);
             isNumber_ = static_cast<bool>(ss >> number_);
         }
     }
@@ -4031,6 +4035,7 @@ static inline std::list<std::string> s_multilineWrap(const std::string& str, std
     std::list<std::string> lines;
     std::string line;
     std::istringstream iss(str);
+    iss.exceptions(std::ios_base::badbit);
     while (std::getline(iss, line)) {
         while (line.size() >= widthMax) {
             std::size_t spacePos = line.rfind(' ', widthMax);
@@ -4055,6 +4060,7 @@ inline std::string Usage::getUsage() const {
         return usage_;
     }
     std::ostringstream oss("");
+    oss.exceptions(std::ios_base::badbit);
     bool hasOption = false;
     bool hasPositionnal = false;
     bool hasMultiLine = false;
@@ -4081,6 +4087,7 @@ inline std::string Usage::getUsage() const {
         }
         hasOption = true;
         std::ostringstream ossArgument("");
+        ossArgument.exceptions(std::ios_base::badbit);
         if (!(*it)->isRequired_) {
             ossArgument << '[';
         }
@@ -4132,6 +4139,7 @@ inline std::string Usage::getUsage() const {
             continue;
         }
         std::ostringstream ossArgument("");
+        ossArgument.exceptions(std::ios_base::badbit);
         if (!(*it)->isRequired_) {
             ossArgument << '[';
         }
@@ -4208,6 +4216,7 @@ inline std::string Usage::getUsage() const {
                     oss << std::string(usagePadWidth_ + usageArgsWidth_ + usageSepWidth_, ' ');
                 }
                 std::ostringstream ossHelp("");
+                ossHelp.exceptions(std::ios_base::badbit);
                 ossHelp << (*it)->help_;
                 if ((*it)->isRequired_) {
                     ossHelp << " (required)";
@@ -4239,6 +4248,7 @@ inline std::string Usage::getUsage() const {
                 }
                 ++index;
                 std::ostringstream ossArgument("");
+                ossArgument.exceptions(std::ios_base::badbit);
                 for (std::size_t i = 0; i < (*it)->nameOrFlags_.size(); ++i) {
                     if (i != 0) {
                         ossArgument << ", ";
@@ -4279,6 +4289,7 @@ inline std::string Usage::getUsage() const {
                     oss << std::string(usagePadWidth_ + usageArgsWidth_ + usageSepWidth_, ' ');
                 }
                 std::ostringstream ossHelp("");
+                ossHelp.exceptions(std::ios_base::badbit);
                 ossHelp << (*it)->help_;
                 if ((*it)->isRequired_) {
                     ossHelp << " (required)";
@@ -4377,6 +4388,7 @@ inline bool ValidNumber::isValid(std::vector<std::string>& args) {
         ::strtod(args[i].c_str(), &endPtr);
         if (endPtr == args[i].c_str() || endPtr[0] != '\0') {
             std::ostringstream oss("");
+            oss.exceptions(std::ios_base::badbit);
             oss << "\"" << args[i] << "\" is not a number";
             throw ParseArgumentValidException(oss.str().c_str());
         }
@@ -4405,15 +4417,18 @@ inline ValidMinMax::~ValidMinMax() {}
 inline bool ValidMinMax::isValid(std::vector<std::string>& args) {
     for (std::size_t i = 0; i < args.size(); ++i) {
         std::stringstream ssArg("");
+        ssArg.exceptions(std::ios_base::badbit);
         ssArg << args[i];
         double number;
         if (!(ssArg >> number)) {
             std::ostringstream oss("");
+            oss.exceptions(std::ios_base::badbit);
             oss << "\"" << args[i] << "\" is not a number";
             throw ParseArgumentValidException(oss.str().c_str());
         }
         if (number < min_ || number > max_) {
             std::ostringstream oss("");
+            oss.exceptions(std::ios_base::badbit);
             oss << args[i] << " is not between " << min_ << " and " << max_;
             throw ParseArgumentValidException(oss.str().c_str());
         }
@@ -4434,6 +4449,7 @@ inline ValidChoise::~ValidChoise() {}
 
 inline bool ValidChoise::isValid(std::vector<std::string>& args) {
     std::ostringstream ossChoise("");
+    ossChoise.exceptions(std::ios_base::badbit);
     for (std::size_t i = 0; i < choises_.size(); ++i) {
         if (i > 0) {
             ossChoise << ", ";
@@ -4449,6 +4465,7 @@ inline bool ValidChoise::isValid(std::vector<std::string>& args) {
         }
         if (j == choises_.size()) {
             std::ostringstream oss("");
+            oss.exceptions(std::ios_base::badbit);
             oss << '\"' << args[i] << "\" is not a valid choise (" << ossChoise.str() << ')';
             throw ParseArgumentValidException(oss.str().c_str());
         }
@@ -4472,16 +4489,19 @@ inline bool ValidPath::isValid(std::vector<std::string>& args) {
     for (std::size_t i = 0; i < args.size(); ++i) {
         if (::stat(args[i].c_str(), &statBuff) == -1) {
             std::ostringstream oss("");
+            oss.exceptions(std::ios_base::badbit);
             oss << '\"' << args[i] << "\" is not a valid path";
             throw ParseArgumentValidException(oss.str().c_str());
         }
         if (mode_ == ValidPath::IS_DIR && !S_ISDIR(statBuff.st_mode)) {
             std::ostringstream oss("");
+            oss.exceptions(std::ios_base::badbit);
             oss << '\"' << args[i] << "\" is not a valid directory";
             throw ParseArgumentValidException(oss.str().c_str());
         }
         else if (mode_ == ValidPath::IS_FILE && !S_ISREG(statBuff.st_mode)) {
             std::ostringstream oss("");
+            oss.exceptions(std::ios_base::badbit);
             oss << '\"' << args[i] << "\" is not a valid file";
             throw ParseArgumentValidException(oss.str().c_str());
         }
diff --git a/src/argument.cpp b/src/argument.cpp
index e5c4250..d0ae2c0 100644
--- a/src/argument.cpp
+++ b/src/argument.cpp
@@ -153,6 +153,7 @@ std::string Argument::getString() const {
     }
     else {
         std::ostringstream oss("");
+        oss.exceptions(std::ios_base::badbit);
         if (!empty()) {
             for (std::size_t i = 0; i < size(); ++i) {
                 if (i > 0) {
@@ -358,17 +359,20 @@ void Argument::toNumber_() {
                 if (!at(i).empty()) {
                     for (std::size_t j = 0; j < at(i).size(); ++j) {
                         std::stringstream ss(at(i).at(j).argument_);
+                        ss.exceptions(std::ios_base::badbit);
                         at(i).at(j).isNumber_ = static_cast<bool>(ss >> at(i).at(j).number_);
                     }
                 }
                 else {
                     std::stringstream ss(at(i).argument_);
+                    ss.exceptions(std::ios_base::badbit);
                     at(i).isNumber_ = static_cast<bool>(ss >> at(i).number_);
                 }
             }
         }
         else if (!isListType_()) {
             std::stringstream ss(argument_);
+            ss.exceptions(std::ios_base::badbit);
             isNumber_ = static_cast<bool>(ss >> number_);
         }
     }
diff --git a/src/usage.cpp b/src/usage.cpp
index 4a8f975..8be6841 100644
--- a/src/usage.cpp
+++ b/src/usage.cpp
@@ -56,6 +56,7 @@ static inline std::list<std::string> s_multilineWrap(const std::string& str, std
     std::list<std::string> lines;
     std::string line;
     std::istringstream iss(str);
+    iss.exceptions(std::ios_base::badbit);
     while (std::getline(iss, line)) {
         while (line.size() >= widthMax) {
             std::size_t spacePos = line.rfind(' ', widthMax);
@@ -80,6 +81,7 @@ std::string Usage::getUsage() const {
         return usage_;
     }
     std::ostringstream oss("");
+    oss.exceptions(std::ios_base::badbit);
     bool hasOption = false;
     bool hasPositionnal = false;
     bool hasMultiLine = false;
@@ -106,6 +108,7 @@ std::string Usage::getUsage() const {
         }
         hasOption = true;
         std::ostringstream ossArgument("");
+        ossArgument.exceptions(std::ios_base::badbit);
         if (!(*it)->isRequired_) {
             ossArgument << '[';
         }
@@ -157,6 +160,7 @@ std::string Usage::getUsage() const {
             continue;
         }
         std::ostringstream ossArgument("");
+        ossArgument.exceptions(std::ios_base::badbit);
         if (!(*it)->isRequired_) {
             ossArgument << '[';
         }
@@ -233,6 +237,7 @@ std::string Usage::getUsage() const {
                     oss << std::string(usagePadWidth_ + usageArgsWidth_ + usageSepWidth_, ' ');
                 }
                 std::ostringstream ossHelp("");
+                ossHelp.exceptions(std::ios_base::badbit);
                 ossHelp << (*it)->help_;
                 if ((*it)->isRequired_) {
                     ossHelp << " (required)";
@@ -264,6 +269,7 @@ std::string Usage::getUsage() const {
                 }
                 ++index;
                 std::ostringstream ossArgument("");
+                ossArgument.exceptions(std::ios_base::badbit);
                 for (std::size_t i = 0; i < (*it)->nameOrFlags_.size(); ++i) {
                     if (i != 0) {
                         ossArgument << ", ";
@@ -304,6 +310,7 @@ std::string Usage::getUsage() const {
                     oss << std::string(usagePadWidth_ + usageArgsWidth_ + usageSepWidth_, ' ');
                 }
                 std::ostringstream ossHelp("");
+                ossHelp.exceptions(std::ios_base::badbit);
                 ossHelp << (*it)->help_;
                 if ((*it)->isRequired_) {
                     ossHelp << " (required)";
diff --git a/src/valid.cpp b/src/valid.cpp
index e1e70af..a18cae7 100644
--- a/src/valid.cpp
+++ b/src/valid.cpp
@@ -51,6 +51,7 @@ bool ValidNumber::isValid(std::vector<std::string>& args) {
         ::strtod(args[i].c_str(), &endPtr);
         if (endPtr == args[i].c_str() || endPtr[0] != '\0') {
             std::ostringstream oss("");
+            oss.exceptions(std::ios_base::badbit);
             oss << "\"" << args[i] << "\" is not a number";
             throw ParseArgumentValidException(oss.str().c_str());
         }
@@ -79,15 +80,18 @@ ValidMinMax::~ValidMinMax() {}
 bool ValidMinMax::isValid(std::vector<std::string>& args) {
     for (std::size_t i = 0; i < args.size(); ++i) {
         std::stringstream ssArg("");
+        ssArg.exceptions(std::ios_base::badbit);
         ssArg << args[i];
         double number;
         if (!(ssArg >> number)) {
             std::ostringstream oss("");
+            oss.exceptions(std::ios_base::badbit);
             oss << "\"" << args[i] << "\" is not a number";
             throw ParseArgumentValidException(oss.str().c_str());
         }
         if (number < min_ || number > max_) {
             std::ostringstream oss("");
+            oss.exceptions(std::ios_base::badbit);
             oss << args[i] << " is not between " << min_ << " and " << max_;
             throw ParseArgumentValidException(oss.str().c_str());
         }
@@ -108,6 +112,7 @@ ValidChoise::~ValidChoise() {}
 
 bool ValidChoise::isValid(std::vector<std::string>& args) {
     std::ostringstream ossChoise("");
+    ossChoise.exceptions(std::ios_base::badbit);
     for (std::size_t i = 0; i < choises_.size(); ++i) {
         if (i > 0) {
             ossChoise << ", ";
@@ -123,6 +128,7 @@ bool ValidChoise::isValid(std::vector<std::string>& args) {
         }
         if (j == choises_.size()) {
             std::ostringstream oss("");
+            oss.exceptions(std::ios_base::badbit);
             oss << '\"' << args[i] << "\" is not a valid choise (" << ossChoise.str() << ')';
             throw ParseArgumentValidException(oss.str().c_str());
         }
@@ -146,16 +152,19 @@ bool ValidPath::isValid(std::vector<std::string>& args) {
     for (std::size_t i = 0; i < args.size(); ++i) {
         if (::stat(args[i].c_str(), &statBuff) == -1) {
             std::ostringstream oss("");
+            oss.exceptions(std::ios_base::badbit);
             oss << '\"' << args[i] << "\" is not a valid path";
             throw ParseArgumentValidException(oss.str().c_str());
         }
         if (mode_ == ValidPath::IS_DIR && !S_ISDIR(statBuff.st_mode)) {
             std::ostringstream oss("");
+            oss.exceptions(std::ios_base::badbit);
             oss << '\"' << args[i] << "\" is not a valid directory";
             throw ParseArgumentValidException(oss.str().c_str());
         }
         else if (mode_ == ValidPath::IS_FILE && !S_ISREG(statBuff.st_mode)) {
             std::ostringstream oss("");
+            oss.exceptions(std::ios_base::badbit);
             oss << '\"' << args[i] << "\" is not a valid file";
             throw ParseArgumentValidException(oss.str().c_str());
         }
-- 
2.43.0


From af5862048d1933a81333ab2dd42b606229759fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:55 +0000
Subject: [PATCH 17/21] fix: running out of memory in addArgument left a half
 known argument

The argument was leaked or known by some of its flags only, and when it
was the automatic help every later parse was silently ignored.
---
 single_include/blet/args.h | 51 ++++++++++++++++++++++++--------------
 src/args.cpp               | 51 ++++++++++++++++++++++++--------------
 2 files changed, 66 insertions(+), 36 deletions(-)

diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index 51fb58e..50a2561 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -2650,7 +2650,9 @@ inline void Args::parseArguments(int argc, char* argv[]) {
         if (cithelp == argumentFromName_.end()) {
             flags.push_back("--help");
         }
-        addArgument(flags).action(Action::HELP).help("show this help message and exit");
+        std::string help("show this help message and exit");
+        // no allocation after addArgument
+        addArgument(flags).action(Action::HELP).help_.swap(help);
     }
     // get argv[0] if filename is empty
     if (binaryName_.empty() && argc > 0) {
@@ -2789,24 +2791,19 @@ inline Argument& Args::addArgument(const Vector& nameOrFlags) {
     if (nameOrFlags.empty()) {
         throw ArgumentException("", "invalid empty flag");
     }
-    Argument* argument = NULL;
+    const bool isName = nameOrFlags.size() == 1 && nameOrFlags.front()[0] != '-';
+    std::vector<std::string> newFlags;
     // is name
-    if (nameOrFlags.size() == 1 && nameOrFlags.front()[0] != '-') {
+    if (isName) {
         if (nameOrFlags.front().empty()) {
             throw ArgumentException("", "bad name argument");
         }
         if (argumentFromName_.find(nameOrFlags.front()) != argumentFromName_.end()) {
             throw ArgumentException(nameOrFlags.front().c_str(), "bad name argument already exist");
         }
-        // create argument
-        argument = new Argument(*this);
-        argument->nameOrFlags_.push_back(nameOrFlags.front());
-        argument->nargs_ = 1;
-        argument->type_ = Argument::POSITIONAL_ARGUMENT;
+        newFlags.push_back(nameOrFlags.front());
     }
     else {
-        std::vector<std::string> newFlags;
-
         for (std::size_t i = 0; i < nameOrFlags.size(); ++i) {
             Argument::validFormatFlag_(nameOrFlags[i].c_str());
             if (argumentFromName_.find(nameOrFlags[i]) != argumentFromName_.end()) {
@@ -2816,17 +2813,35 @@ inline Argument& Args::addArgument(const Vector& nameOrFlags) {
                 newFlags.push_back(nameOrFlags[i]);
             }
         }
-
-        argument = new Argument(*this);
-        argument->nameOrFlags_ = newFlags;
-        argument->sortNameOrFlags_();
     }
 
-    arguments_.push_back(argument);
+    // create argument
+    arguments_.push_back(NULL);
     Argument** addrNewArgument = &(arguments_.back());
-    argument->this_ = addrNewArgument;
-    for (std::size_t i = 0; i < argument->nameOrFlags_.size(); ++i) {
-        argumentFromName_.insert(std::pair<std::string, Argument**>(argument->nameOrFlags_[i], addrNewArgument));
+    try {
+        Argument* argument = new Argument(*this);
+        *addrNewArgument = argument;
+        argument->this_ = addrNewArgument;
+        argument->nameOrFlags_ = newFlags;
+        if (isName) {
+            argument->nargs_ = 1;
+            argument->type_ = Argument::POSITIONAL_ARGUMENT;
+        }
+        else {
+            argument->sortNameOrFlags_();
+        }
+        for (std::size_t i = 0; i < argument->nameOrFlags_.size(); ++i) {
+            argumentFromName_.insert(std::pair<std::string, Argument**>(argument->nameOrFlags_[i], addrNewArgument));
+        }
+    }
+    catch (...) {
+        // keep nothing of this argument
+        for (std::size_t i = 0; i < newFlags.size(); ++i) {
+            argumentFromName_.erase(newFlags[i]);
+        }
+        delete arguments_.back();
+        arguments_.pop_back();
+        throw;
     }
     arguments_.sort(&Argument::compareOption_);
     return **addrNewArgument;
diff --git a/src/args.cpp b/src/args.cpp
index 02737ac..d507621 100644
--- a/src/args.cpp
+++ b/src/args.cpp
@@ -81,7 +81,9 @@ void Args::parseArguments(int argc, char* argv[]) {
         if (cithelp == argumentFromName_.end()) {
             flags.push_back("--help");
         }
-        addArgument(flags).action(Action::HELP).help("show this help message and exit");
+        std::string help("show this help message and exit");
+        // no allocation after addArgument
+        addArgument(flags).action(Action::HELP).help_.swap(help);
     }
     // get argv[0] if filename is empty
     if (binaryName_.empty() && argc > 0) {
@@ -220,24 +222,19 @@ Argument& Args::addArgument(const Vector& nameOrFlags) {
     if (nameOrFlags.empty()) {
         throw ArgumentException("", "invalid empty flag");
     }
-    Argument* argument = NULL;
+    const bool isName = nameOrFlags.size() == 1 && nameOrFlags.front()[0] != '-';
+    std::vector<std::string> newFlags;
     // is name
-    if (nameOrFlags.size() == 1 && nameOrFlags.front()[0] != '-') {
+    if (isName) {
         if (nameOrFlags.front().empty()) {
             throw ArgumentException("", "bad name argument");
         }
         if (argumentFromName_.find(nameOrFlags.front()) != argumentFromName_.end()) {
             throw ArgumentException(nameOrFlags.front().c_str(), "bad name argument already exist");
         }
-        // create argument
-        argument = new Argument(*this);
-        argument->nameOrFlags_.push_back(nameOrFlags.front());
-        argument->nargs_ = 1;
-        argument->type_ = Argument::POSITIONAL_ARGUMENT;
+        newFlags.push_back(nameOrFlags.front());
     }
     else {
-        std::vector<std::string> newFlags;
-
         for (std::size_t i = 0; i < nameOrFlags.size(); ++i) {
             Argument::validFormatFlag_(nameOrFlags[i].c_str());
             if (argumentFromName_.find(nameOrFlags[i]) != argumentFromName_.end()) {
@@ -247,17 +244,35 @@ Argument& Args::addArgument(const Vector& nameOrFlags) {
                 newFlags.push_back(nameOrFlags[i]);
             }
         }
-
-        argument = new Argument(*this);
-        argument->nameOrFlags_ = newFlags;
-        argument->sortNameOrFlags_();
     }
 
-    arguments_.push_back(argument);
+    // create argument
+    arguments_.push_back(NULL);
     Argument** addrNewArgument = &(arguments_.back());
-    argument->this_ = addrNewArgument;
-    for (std::size_t i = 0; i < argument->nameOrFlags_.size(); ++i) {
-        argumentFromName_.insert(std::pair<std::string, Argument**>(argument->nameOrFlags_[i], addrNewArgument));
+    try {
+        Argument* argument = new Argument(*this);
+        *addrNewArgument = argument;
+        argument->this_ = addrNewArgument;
+        argument->nameOrFlags_ = newFlags;
+        if (isName) {
+            argument->nargs_ = 1;
+            argument->type_ = Argument::POSITIONAL_ARGUMENT;
+        }
+        else {
+            argument->sortNameOrFlags_();
+        }
+        for (std::size_t i = 0; i < argument->nameOrFlags_.size(); ++i) {
+            argumentFromName_.insert(std::pair<std::string, Argument**>(argument->nameOrFlags_[i], addrNewArgument));
+        }
+    }
+    catch (...) {
+        // keep nothing of this argument
+        for (std::size_t i = 0; i < newFlags.size(); ++i) {
+            argumentFromName_.erase(newFlags[i]);
+        }
+        delete arguments_.back();
+        arguments_.pop_back();
+        throw;
     }
     arguments_.sort(&Argument::compareOption_);
     return **addrNewArgument;
-- 
2.43.0


From 63cf908369ace5f4c8be4bf1ce7ee6e7d93f8661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:04 +0000
Subject: [PATCH 18/21] fix: running out of memory in flag, action, nargs,
 defaults or dest left the argument half changed

---
 include/blet/args/argument.h | 18 +++---------------
 single_include/blet/args.h   | 34 +++++++++++++++++-----------------
 src/argument.cpp             | 16 ++++++++++++++--
 3 files changed, 34 insertions(+), 34 deletions(-)

diff --git a/include/blet/args/argument.h b/include/blet/args/argument.h
index f31c653..b78e071 100644
--- a/include/blet/args/argument.h
+++ b/include/blet/args/argument.h
@@ -557,11 +557,7 @@ class Argument : public ArgumentElement {
     Argument& dest(std::vector<std::vector<T> >& dest,
                    void (*toDest)(std::vector<std::vector<T> >& dest, bool isExists,
                                   const std::vector<std::vector<std::string> >& arguments) = NULL) {
-        bool validDeletable = validDeletable_;
-        validDeletable_ = false;
-        Argument* argumentType = new ArgumentVectorVectorType<T>(this, dest, toDest);
-        argumentType->validDeletable_ = validDeletable;
-        return *argumentType;
+        return *(new ArgumentVectorVectorType<T>(this, dest, toDest));
     }
 
     /**
@@ -575,11 +571,7 @@ class Argument : public ArgumentElement {
     template<typename T>
     Argument& dest(std::vector<T>& dest, void (*toDest)(std::vector<T>& dest, bool isExists,
                                                         const std::vector<std::string>& arguments) = NULL) {
-        bool validDeletable = validDeletable_;
-        validDeletable_ = false;
-        Argument* argumentType = new ArgumentVectorType<T>(this, dest, toDest);
-        argumentType->validDeletable_ = validDeletable;
-        return *argumentType;
+        return *(new ArgumentVectorType<T>(this, dest, toDest));
     }
 
     /**
@@ -592,11 +584,7 @@ class Argument : public ArgumentElement {
      */
     template<typename T>
     Argument& dest(T& dest, void (*toDest)(T& dest, bool isExists, const std::string& argument) = NULL) {
-        bool validDeletable = validDeletable_;
-        validDeletable_ = false;
-        Argument* argumentType = new ArgumentType<T>(this, dest, toDest);
-        argumentType->validDeletable_ = validDeletable;
-        return *argumentType;
+        return *(new ArgumentType<T>(this, dest, toDest));
     }
 
     /**
diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index 50a2561..3467c42 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -1108,11 +1108,7 @@ class Argument : public ArgumentElement {
     inline Argument& dest(std::vector<std::vector<T> >& dest,
                           void (*toDest)(std::vector<std::vector<T> >& dest, bool isExists,
                                          const std::vector<std::vector<std::string> >& arguments) = NULL) {
-        bool validDeletable = validDeletable_;
-        validDeletable_ = false;
-        Argument* argumentType = new ArgumentVectorVectorType<T>(this, dest, toDest);
-        argumentType->validDeletable_ = validDeletable;
-        return *argumentType;
+        return *(new ArgumentVectorVectorType<T>(this, dest, toDest));
     }
 
     /**
@@ -1126,11 +1122,7 @@ class Argument : public ArgumentElement {
     template<typename T>
     inline Argument& dest(std::vector<T>& dest, void (*toDest)(std::vector<T>& dest, bool isExists,
                                                                const std::vector<std::string>& arguments) = NULL) {
-        bool validDeletable = validDeletable_;
-        validDeletable_ = false;
-        Argument* argumentType = new ArgumentVectorType<T>(this, dest, toDest);
-        argumentType->validDeletable_ = validDeletable;
-        return *argumentType;
+        return *(new ArgumentVectorType<T>(this, dest, toDest));
     }
 
     /**
@@ -1143,11 +1135,7 @@ class Argument : public ArgumentElement {
      */
     template<typename T>
     inline Argument& dest(T& dest, void (*toDest)(T& dest, bool isExists, const std::string& argument) = NULL) {
-        bool validDeletable = validDeletable_;
-        validDeletable_ = false;
-        Argument* argumentType = new ArgumentType<T>(this, dest, toDest);
-        argumentType->validDeletable_ = validDeletable;
-        return *argumentType;
+        return *(new ArgumentType<T>(this, dest, toDest));
     }
 
     /**
@@ -3496,9 +3484,12 @@ inline Argument& Argument::flag(const char* flag__) {
     if (args_.argumentExists(flag__)) {
         throw ArgumentException(flag__, "invalid flag already exist");
     }
-    nameOrFlags_.push_back(flag__);
-    sortNameOrFlags_();
+    std::vector<std::string> newFlags(nameOrFlags_);
+    newFlags.push_back(flag__);
+    std::sort(newFlags.begin(), newFlags.end(), &compareFlag);
     args_.argumentFromName_.insert(std::pair<std::string, Argument**>(flag__, this_));
+    // no allocation after insert
+    nameOrFlags_.swap(newFlags);
     args_.arguments_.sort(&Argument::compareOption_);
     return *this;
 }
@@ -3756,6 +3747,9 @@ inline void Argument::change_(enum Action::eAction action__, std::size_t nargs__
     const enum Type previousType = type_;
     Argument* const previousHelpOption = args_.helpOption_;
     Argument* const previousVersionOption = args_.versionOption_;
+    std::vector<ArgumentElement> previousValues(*this);
+    std::string previousArgument(argument_);
+    std::string previousDefault(default_);
     std::vector<std::string> previousDefaults(defaults__);
     defaults_.swap(previousDefaults);
     try {
@@ -3776,6 +3770,9 @@ inline void Argument::change_(enum Action::eAction action__, std::size_t nargs__
         action_ = previousAction;
         nargs_ = previousNargs;
         type_ = previousType;
+        swap(previousValues);
+        argument_.swap(previousArgument);
+        default_.swap(previousDefault);
         defaults_.swap(previousDefaults);
         args_.helpOption_ = previousHelpOption;
         args_.versionOption_ = previousVersionOption;
@@ -3872,6 +3869,9 @@ inline void Argument::replace_(Argument* argument) {
     if (args_.versionOption_ == argument) {
         args_.versionOption_ = this;
     }
+    // keep the ownership of the validator
+    validDeletable_ = argument->validDeletable_;
+    argument->validDeletable_ = false;
     delete argument;
     *this_ = this;
 }
diff --git a/src/argument.cpp b/src/argument.cpp
index d0ae2c0..2f2affd 100644
--- a/src/argument.cpp
+++ b/src/argument.cpp
@@ -243,9 +243,12 @@ Argument& Argument::flag(const char* flag__) {
     if (args_.argumentExists(flag__)) {
         throw ArgumentException(flag__, "invalid flag already exist");
     }
-    nameOrFlags_.push_back(flag__);
-    sortNameOrFlags_();
+    std::vector<std::string> newFlags(nameOrFlags_);
+    newFlags.push_back(flag__);
+    std::sort(newFlags.begin(), newFlags.end(), &compareFlag);
     args_.argumentFromName_.insert(std::pair<std::string, Argument**>(flag__, this_));
+    // no allocation after insert
+    nameOrFlags_.swap(newFlags);
     args_.arguments_.sort(&Argument::compareOption_);
     return *this;
 }
@@ -503,6 +506,9 @@ void Argument::change_(enum Action::eAction action__, std::size_t nargs__,
     const enum Type previousType = type_;
     Argument* const previousHelpOption = args_.helpOption_;
     Argument* const previousVersionOption = args_.versionOption_;
+    std::vector<ArgumentElement> previousValues(*this);
+    std::string previousArgument(argument_);
+    std::string previousDefault(default_);
     std::vector<std::string> previousDefaults(defaults__);
     defaults_.swap(previousDefaults);
     try {
@@ -523,6 +529,9 @@ void Argument::change_(enum Action::eAction action__, std::size_t nargs__,
         action_ = previousAction;
         nargs_ = previousNargs;
         type_ = previousType;
+        swap(previousValues);
+        argument_.swap(previousArgument);
+        default_.swap(previousDefault);
         defaults_.swap(previousDefaults);
         args_.helpOption_ = previousHelpOption;
         args_.versionOption_ = previousVersionOption;
@@ -619,6 +628,9 @@ void Argument::replace_(Argument* argument) {
     if (args_.versionOption_ == argument) {
         args_.versionOption_ = this;
     }
+    // keep the ownership of the validator
+    validDeletable_ = argument->validDeletable_;
+    argument->validDeletable_ = false;
     delete argument;
     *this_ = this;
 }
-- 
2.43.0


From 5e74508e4c94ea45e7d50b607ef81ee2f2efb921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:04 +0000
Subject: [PATCH 19/21] fix: running out of memory in removeArguments left a
 name half removed

---
 single_include/blet/args.h | 9 +++++----
 src/args.cpp               | 9 +++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index 3467c42..0b8e386 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -2855,7 +2855,11 @@ inline void Args::removeArguments(const Vector& nameOrFlags) {
         // remove name or flag in argument object
         std::vector<std::string>::iterator namesIt =
             std::find((*ppArgument)->nameOrFlags_.begin(), (*ppArgument)->nameOrFlags_.end(), vIt[i]->first);
-        (*ppArgument)->nameOrFlags_.erase(namesIt);
+        // no allocation, the names stay sorted
+        for (; namesIt + 1 != (*ppArgument)->nameOrFlags_.end(); ++namesIt) {
+            namesIt->swap(*(namesIt + 1));
+        }
+        (*ppArgument)->nameOrFlags_.pop_back();
         // remove argument
         argumentFromName_.erase(vIt[i]);
         // check if ppArgument not exists
@@ -2877,9 +2881,6 @@ inline void Args::removeArguments(const Vector& nameOrFlags) {
             delete (*aIt);
             arguments_.erase(aIt);
         }
-        else {
-            (**it->second).sortNameOrFlags_();
-        }
     }
     arguments_.sort(&Argument::compareOption_);
 }
diff --git a/src/args.cpp b/src/args.cpp
index d507621..cfa7a04 100644
--- a/src/args.cpp
+++ b/src/args.cpp
@@ -298,7 +298,11 @@ void Args::removeArguments(const Vector& nameOrFlags) {
         // remove name or flag in argument object
         std::vector<std::string>::iterator namesIt =
             std::find((*ppArgument)->nameOrFlags_.begin(), (*ppArgument)->nameOrFlags_.end(), vIt[i]->first);
-        (*ppArgument)->nameOrFlags_.erase(namesIt);
+        // no allocation, the names stay sorted
+        for (; namesIt + 1 != (*ppArgument)->nameOrFlags_.end(); ++namesIt) {
+            namesIt->swap(*(namesIt + 1));
+        }
+        (*ppArgument)->nameOrFlags_.pop_back();
         // remove argument
         argumentFromName_.erase(vIt[i]);
         // check if ppArgument not exists
@@ -320,9 +324,6 @@ void Args::removeArguments(const Vector& nameOrFlags) {
             delete (*aIt);
             arguments_.erase(aIt);
         }
-        else {
-            (**it->second).sortNameOrFlags_();
-        }
     }
     arguments_.sort(&Argument::compareOption_);
 }
-- 
2.43.0


From 23226a693e2717f770ee18deca5c91aa7be50f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:24 +0000
Subject: [PATCH 20/21] fix: attaching again the validator that the argument
 already has no longer deletes it

---
 include/blet/args/argument.h | 2 +-
 single_include/blet/args.h   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/blet/args/argument.h b/include/blet/args/argument.h
index b78e071..4ca54eb 100644
--- a/include/blet/args/argument.h
+++ b/include/blet/args/argument.h
@@ -537,7 +537,7 @@ class Argument : public ArgumentElement {
      * @return this reference
      */
     Argument& valid(IValid* pValid, bool isDeletable = true) {
-        if (valid_ != NULL && validDeletable_) {
+        if (valid_ != NULL && valid_ != pValid && validDeletable_) {
             delete valid_;
         }
         valid_ = pValid;
diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index 0b8e386..42b83a3 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -1088,7 +1088,7 @@ class Argument : public ArgumentElement {
      * @return this reference
      */
     inline Argument& valid(IValid* pValid, bool isDeletable = true) {
-        if (valid_ != NULL && validDeletable_) {
+        if (valid_ != NULL && valid_ != pValid && validDeletable_) {
             delete valid_;
         }
         valid_ = pValid;
-- 
2.43.0


From 75aee0827659c80672e8d14d426baea423bc5168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:10 +0000
Subject: [PATCH 21/21] fix: defaults declared earlier stayed when the argument
 no longer takes them

---
 single_include/blet/args.h | 6 ++++++
 src/argument.cpp           | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index 42b83a3..b9da1a1 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -3762,6 +3762,12 @@ inline void Argument::change_(enum Action::eAction action__, std::size_t nargs__
         if (args_.versionOption_ == this) {
             args_.versionOption_ = NULL;
         }
+        // forget the previous defaults values
+        if (!previousDefaults.empty()) {
+            clear();
+            argument_.clear();
+            default_.clear();
+        }
         action_ = action__;
         nargs_ = nargs__;
         typeConstructor_();
diff --git a/src/argument.cpp b/src/argument.cpp
index 2f2affd..09b8c5c 100644
--- a/src/argument.cpp
+++ b/src/argument.cpp
@@ -520,6 +520,12 @@ void Argument::change_(enum Action::eAction action__, std::size_t nargs__,
         if (args_.versionOption_ == this) {
             args_.versionOption_ = NULL;
         }
+        // forget the previous defaults values
+        if (!previousDefaults.empty()) {
+            clear();
+            argument_.clear();
+            default_.clear();
+        }
         action_ = action__;
         nargs_ = nargs__;
         typeConstructor_();
-- 
2.43.0

