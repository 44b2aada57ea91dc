From 744266c1d397ebf028b7f22076d92b4558b1249d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:13 +0000
Subject: [PATCH 01/47] fix: throw exceptions by value, not as pointers to heap
 objects

---
 tools/lemmatizers/lamerlemma/lamerlemma.cpp         | 4 ++--
 tools/lexica/bilexicon/bilexicon.cpp                | 4 ++--
 tools/lexica/mapper/mapper.cpp                      | 4 ++--
 tools/tokenizers/tp/tp_basic_tokenizer_rule_set.cpp | 6 +++---
 4 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/tools/lemmatizers/lamerlemma/lamerlemma.cpp b/tools/lemmatizers/lamerlemma/lamerlemma.cpp
index caca83f..33d0fb2 100644
--- a/tools/lemmatizers/lamerlemma/lamerlemma.cpp
+++ b/tools/lemmatizers/lamerlemma/lamerlemma.cpp
@@ -15,7 +15,7 @@ LamerLemma::LamerLemma(const boost::program_options::variables_map& options)
     if (options.count("plain-text-lexicon")) {
         if (options.count("binary-lexicon")
             && options["binary-lexicon"].as<std::string>() != DEFAULT_LAMERLEMMA_SPEC)
-            throw new PsiException(
+            throw PsiException(
                 "either --plain-text-lexicon or --binary-lexicon expected, not both");
 
         boost::filesystem::path plainTextLexiconPath =
@@ -33,7 +33,7 @@ LamerLemma::LamerLemma(const boost::program_options::variables_map& options)
 
     if (options.count("save-binary-lexicon")) {
         if (dict_.isEmpty())
-            throw new PsiException("no data to save");
+            throw PsiException("no data to save");
 
         boost::filesystem::path binaryLexiconPath(
             options["save-binary-lexicon"].as<std::string>());
diff --git a/tools/lexica/bilexicon/bilexicon.cpp b/tools/lexica/bilexicon/bilexicon.cpp
index 04d1b12..3111fdc 100644
--- a/tools/lexica/bilexicon/bilexicon.cpp
+++ b/tools/lexica/bilexicon/bilexicon.cpp
@@ -23,7 +23,7 @@ BiLexicon::BiLexicon(const boost::program_options::variables_map& options) {
     if (options.count("plain-text-lexicon") > 0) {
         if (options.count("binary-lexicon") > 0
             && options["binary-lexicon"].as<std::string>() != DEFAULT_BINARY_LEXICON_SPEC)
-            throw new Exception(
+            throw Exception(
                 "either --plain-text-lexicon or --binary-lexicon expected, not both");
 
         boost::filesystem::path plainTextLexiconPath =
@@ -41,7 +41,7 @@ BiLexicon::BiLexicon(const boost::program_options::variables_map& options) {
 
     if (options.count("save-binary-lexicon") > 0) {
         if (lexiconBase_.isEmpty())
-            throw new Exception("no data to save");
+            throw Exception("no data to save");
 
         boost::filesystem::path binaryLexiconPath(
             options["save-binary-lexicon"].as<std::string>());
diff --git a/tools/lexica/mapper/mapper.cpp b/tools/lexica/mapper/mapper.cpp
index 16dda7a..63b7f65 100644
--- a/tools/lexica/mapper/mapper.cpp
+++ b/tools/lexica/mapper/mapper.cpp
@@ -108,7 +108,7 @@ Mapper::Mapper(const boost::program_options::variables_map& options) {
     else {
         if (options.count("plain-text-lexicon") > 0) {
             if (options.count("binary-lexicon") > 0)
-                throw new Exception(
+                throw Exception(
                     "either --plain-text-lexicon or --binary-lexicon expected, not both");
 
             boost::filesystem::path plainTextLexiconPath =
@@ -126,7 +126,7 @@ Mapper::Mapper(const boost::program_options::variables_map& options) {
 
         if (options.count("save-binary-lexicon") > 0) {
             if (lexiconBase_.isEmpty())
-                throw new Exception("no data to save");
+                throw Exception("no data to save");
 
             boost::filesystem::path binaryLexiconPath(
                 options["save-binary-lexicon"].as<std::string>());
diff --git a/tools/tokenizers/tp/tp_basic_tokenizer_rule_set.cpp b/tools/tokenizers/tp/tp_basic_tokenizer_rule_set.cpp
index b61883a..f96d444 100644
--- a/tools/tokenizers/tp/tp_basic_tokenizer_rule_set.cpp
+++ b/tools/tokenizers/tp/tp_basic_tokenizer_rule_set.cpp
@@ -124,7 +124,7 @@ bool TPBasicTokenizerRuleSet::changeHereDoc(std::string& strg) {
         std::string restS = rest.as_string();
         size_t markerPos = restS.find(marker);
         if (markerPos == std::string::npos)
-            throw new TPTokenizerException("wrong here doc for `" + marker + "'");
+            throw TPTokenizerException("wrong here doc for `" + marker + "'");
 
         std::string hereDocBody = restS.substr(0, markerPos);
 
@@ -249,7 +249,7 @@ std::string TPBasicTokenizerRuleSet::getContent(
 
     PerlStringPiece bufferPiece(buffer);
     if (!PerlRegExp::FindAndConsume(&bufferPiece, ruleName, &target))
-        throw new TPTokenizerException(msg + context + " at line: " + itoa(filePos));
+        throw TPTokenizerException(msg + context + " at line: " + itoa(filePos));
 
     buffer = bufferPiece.as_string();
 
@@ -265,7 +265,7 @@ void TPBasicTokenizerRuleSet::isEmpty(
     PerlRegExp empty("^\\s+$");
 
     if (PerlRegExp::FullMatch(buffer, empty))
-        throw new TPTokenizerException(std::string(msg) + "in: "+ context + "at: " + itoa(filePos));
+        throw TPTokenizerException(std::string(msg) + "in: "+ context + "at: " + itoa(filePos));
 }
 
 void TPBasicTokenizerRuleSet::readRule(
-- 
2.43.0


From 387ccd95e7525ac39b35a157147267c08a1346c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:20 +0000
Subject: [PATCH 02/47] fix: report errors in transfer and translation rules by
 exception instead of ending the process

---
 tools/translators/bonsai/rules/RuleSet.cpp       | 13 +++++--------
 .../translators/transferer/tscript_from_file.cpp | 16 ++++++++++++----
 2 files changed, 17 insertions(+), 12 deletions(-)

diff --git a/tools/translators/bonsai/rules/RuleSet.cpp b/tools/translators/bonsai/rules/RuleSet.cpp
index b7e117e..bafe05a 100644
--- a/tools/translators/bonsai/rules/RuleSet.cpp
+++ b/tools/translators/bonsai/rules/RuleSet.cpp
@@ -1,5 +1,6 @@
 #include "RuleSet.hpp"
 #include <cstdio>
+#include "psi_exception.hpp"
 
 namespace poleng
 {
@@ -28,27 +29,23 @@ RuleSet::RuleSet(std::string path, int max_length_, int max_nt_, int rule_set_in
    boost::program_options::notify(vm);
 
    if (vm.count("source.rules.index") == 0) {
-       std::cerr << "Error: No source rule index file given." << std::endl;
-       exit(1);
+       throw PsiException("No source rule index file given.");
    }
    std::string sindex = path + "/" + vm["source.rules.index"].as<std::string>();
 
 
    if (vm.count("source.rules.symbols") == 0) {
-       std::cerr << "Error: No source rule symbols file given." << std::endl;
-       exit(1);
+       throw PsiException("No source rule symbols file given.");
    }
    std::string ssymbols = path + "/" + vm["source.rules.symbols"].as<std::string>();
 
    if (vm.count("target.rules.index") == 0) {
-       std::cerr << "Error: No target rule index file given." << std::endl;
-       exit(1);
+       throw PsiException("No target rule index file given.");
    }
    std::string tindex = path + "/" + vm["target.rules.index"].as<std::string>();
 
    if (vm.count("target.rules.symbols") == 0) {
-       std::cerr << "Error: No target rule symbols file given." << std::endl;
-       exit(1);
+       throw PsiException("No target rule symbols file given.");
    }
    std::string tsymbols = path + "/" + vm["target.rules.symbols"].as<std::string>();
 
diff --git a/tools/translators/transferer/tscript_from_file.cpp b/tools/translators/transferer/tscript_from_file.cpp
index f086f23..e167424 100644
--- a/tools/translators/transferer/tscript_from_file.cpp
+++ b/tools/translators/transferer/tscript_from_file.cpp
@@ -8,6 +8,9 @@
 
 #include "tscript_from_file.hpp"
 
+#include "exceptions.hpp"
+
+#include <cstdio>
 #include <iostream>
 #include <fstream>
 #define ERROR_MELDER(x)  std::cerr << x ;
@@ -19,6 +22,7 @@ using namespace tmil;
 std::istream* trlex_input_stream; //for flex
 extern int trlexlineno; //flex
 extern char* trlextext; //flex
+void trlexrestart(FILE*); //flex
 extern tmil::TScript trparser_all; //bison
 extern char trerror_message[]; //bison
 int trparserparse(); //bison call
@@ -53,10 +57,8 @@ TScript FileParsingScriptFactory::getScriptForName(const char* file_name,
     trlex_input_stream = &ifile;
     the_holder = a_holder;
 
-    if (trparserparse()) {
-        std::cerr << "!!trules parse::" << file_name << "::" << trerror_message << '\n';
-    exit(1);
-    } else {
+    bool parsed = (trparserparse() == 0);
+    if (parsed) {
         result = trparser_all;
     }
     //cleanup
@@ -66,5 +68,11 @@ TScript FileParsingScriptFactory::getScriptForName(const char* file_name,
     the_holder = EMPTY_ZOBJECTS_HOLDER;
     //ymutex.leave();
 
+    if (!parsed) {
+        trlexrestart(NULL); // drop the unread rest of the broken file
+        throw FileFormatException(
+            std::string("transfer rules parse error in ") + file_name + ": " + trerror_message);
+    }
+
     return result;
 }
-- 
2.43.0


From b509efe86f1747030d989b9f77005b1fdeede3da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:38 +0000
Subject: [PATCH 03/47] fix: do not keep edge descriptors of one lattice for
 the next one in bonsai translator

---
 tools/translators/bonsai/translator/Translator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/translators/bonsai/translator/Translator.cpp b/tools/translators/bonsai/translator/Translator.cpp
index 3612d38..451d6e3 100644
--- a/tools/translators/bonsai/translator/Translator.cpp
+++ b/tools/translators/bonsai/translator/Translator.cpp
@@ -43,7 +43,7 @@ void Translator::translate(Lattice& lattice,
         sentence_no++;
         lm->clear_memory();
     
-        static std::map<int, Lattice::EdgeDescriptor> idEdgeMap;
+        std::map<int, Lattice::EdgeDescriptor> idEdgeMap;
         int i = 0;
         for (TranslationQueue::iterator it = translations->begin(); it != translations->end() && i < n; it++) {
             if (verbosity > 1)
-- 
2.43.0


From f87ed9dc9fa56591a520365df3bd2fad629428cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:34 +0000
Subject: [PATCH 04/47] fix: answer a request whose processing failed instead
 of ending the server

An exception thrown while a request is handled left connection::handle_read
and ended the worker thread (std::terminate). Reply with an internal server
error instead.
---
 server/server/connection.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/server/server/connection.cpp b/server/server/connection.cpp
index 9aa4d7e..db5237c 100644
--- a/server/server/connection.cpp
+++ b/server/server/connection.cpp
@@ -7,6 +7,7 @@
 #include <vector>
 #include <boost/bind.hpp>
 #include "request_handler.hpp"
+#include "logging.hpp"
 
 namespace http {
 namespace server3 {
@@ -46,7 +47,15 @@ void connection::handle_read(const boost::system::error_code& e,
 
     if (result)
     {
-      request_handler_.handle_request(request_, reply_);
+      try
+      {
+        request_handler_.handle_request(request_, reply_);
+      }
+      catch (std::exception& ex)
+      {
+        ERROR("Request failed: " << ex.what());
+        reply_ = reply::stock_reply(reply::internal_server_error);
+      }
       boost::asio::async_write(socket_, reply_.to_buffers(),
           strand_.wrap(
             boost::bind(&connection::handle_write, shared_from_this(),
-- 
2.43.0


From 55d548493bfe290c6425409154d1b2f9e9493b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:34 +0000
Subject: [PATCH 05/47] fix: look for the whole session cookie name

A cookie header naming the session cookie without a value made the
substr() beyond the end of the header throw.
---
 server/session_manager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/session_manager.cpp b/server/session_manager.cpp
index 684ba30..ba51410 100644
--- a/server/session_manager.cpp
+++ b/server/session_manager.cpp
@@ -7,7 +7,7 @@ std::string SessionManager::cookieIdentifier = "PSISESSIONID";
 int SessionManager::sessionIdLength = 25;
 
 std::string SessionManager::SessionId(std::string cookies) {
-    size_t hasId = cookies.find(cookieIdentifier);
+    size_t hasId = cookies.find(cookieIdentifier + "=");
 
     std::string id = "";
     if (hasId != std::string::npos) {
-- 
2.43.0


From 5d09ee45e8f0f95245340ea89630855fe0ac0c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:34 +0000
Subject: [PATCH 06/47] fix: stop parsing form data that has no name-value pair

Data without '=' restarted the loop for ever; a percent sign that does not
encode a character decoded to an uninitialised value.
---
 server/psi_server.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/server/psi_server.cpp b/server/psi_server.cpp
index 9e7a0c7..3ff414a 100644
--- a/server/psi_server.cpp
+++ b/server/psi_server.cpp
@@ -183,6 +183,10 @@ void PsiServer::parseNamesAndValues(std::string uri, int q) {
 
     while (!flag_done) {
         q = uri.find("=", p);
+        if (q == -1) {
+            // no (further) name-value pair
+            break;
+        }
         name = uri.substr(p, q-p);
         p = q + 1;
         q = uri.find("&", p);
@@ -215,12 +219,16 @@ std::string PsiServer::urlDecode(std::string & encodedString) {
 
     char ch;
     unsigned int i;
-    int j;
+    unsigned int j;
 
     for (i = 0; i < encodedString.length(); i++) {
 
         if (int(encodedString[i]) == 37) {
-            sscanf(encodedString.substr(i+1, 2).c_str(), "%2x", &j);
+            if (sscanf(encodedString.substr(i+1, 2).c_str(), "%2x", &j) != 1) {
+                // not an encoded character, keep the percent sign
+                decodedString += encodedString[i];
+                continue;
+            }
 
             ch = static_cast<char>(j);
             decodedString += ch;
-- 
2.43.0


From e50c70abd1c9953cd01dee8ce71a4a627f7d85f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:38 +0000
Subject: [PATCH 07/47] fix: escape control characters in JSON strings written
 by json-simple-writer

---
 .../json-simple/json_lattice_writer_output.cpp | 18 ++++++++++++++++++
 .../json-simple/json_lattice_writer_output.hpp |  1 +
 2 files changed, 19 insertions(+)

diff --git a/formats/json-simple/json_lattice_writer_output.cpp b/formats/json-simple/json_lattice_writer_output.cpp
index 2a16926..66136a8 100644
--- a/formats/json-simple/json_lattice_writer_output.cpp
+++ b/formats/json-simple/json_lattice_writer_output.cpp
@@ -1,3 +1,4 @@
+#include <iomanip>
 #include <iostream>
 #include <list>
 #include <string>
@@ -189,9 +190,26 @@ void JSONLatticeWriterOutput::createEscapedJSONString_(
     boost::replace_all(output, "\\", "\\\\");
     boost::replace_all(output, "\"", "\\\"");
 
+    escapeControlCharacters_(output);
+
     output = "\"" + output + "\"";
 }
 
+void JSONLatticeWriterOutput::escapeControlCharacters_(std::string & text) {
+    std::stringstream escapedText;
+
+    BOOST_FOREACH(char ch, text) {
+        if (static_cast<unsigned char>(ch) < 0x20) {
+            escapedText << "\\u" << std::hex << std::setw(4) << std::setfill('0')
+                << static_cast<int>(ch);
+        } else {
+            escapedText << ch;
+        }
+    }
+
+    text = escapedText.str();
+}
+
 
 bool JSONLatticeWriterOutput::isCurrentArrayEmpty_() {
     return 0 == getCurrentArrayLength_();
diff --git a/formats/json-simple/json_lattice_writer_output.hpp b/formats/json-simple/json_lattice_writer_output.hpp
index 65d5312..7184a06 100644
--- a/formats/json-simple/json_lattice_writer_output.hpp
+++ b/formats/json-simple/json_lattice_writer_output.hpp
@@ -41,6 +41,7 @@ private:
          std::stringstream & outputStream, const std::string & key, const std::string & value);
 
     void createEscapedJSONString_(const std::string & content, std::string & output);
+    void escapeControlCharacters_(std::string & text);
 
     std::ostream & outputStream_;
 
-- 
2.43.0


From ff16aa04c9f375ab72f44e6a56e8bb347b902fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:38 +0000
Subject: [PATCH 08/47] fix: escape the whole text of each string of the JSON
 site's answer

Backslashes and control characters were left as they were and the output
and the error message were not escaped at all, so the answer was no JSON.
---
 server/site/json_site.cpp | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/server/site/json_site.cpp b/server/site/json_site.cpp
index 40f668b..c6beccf 100644
--- a/server/site/json_site.cpp
+++ b/server/site/json_site.cpp
@@ -1,8 +1,9 @@
+#include <iomanip>
+#include <sstream>
 #include <string>
 #include <boost/bind.hpp>
 #include <boost/assign.hpp>
 #include <boost/foreach.hpp>
-#include <boost/algorithm/string/replace.hpp>
 
 #include "json_site.hpp"
 #include "pipe_runner.hpp"
@@ -15,12 +16,14 @@ const std::string JsonSite::ERROR_KEY_NAME = "error";
 
 std::map<std::string, std::string> JsonSite::ESCAPED_CHARS =
     boost::assign::map_list_of
+        ("\\", "\\\\")
         ("/", "\\/")
         ("\"", "\\\"")
         ("\n", "\\n")
         ("\r", "\\r")
         ("\t", "\\t")
         ("\b", "\\b")
+        ("\f", "\\f")
         ;
 
 const std::vector<std::string> JsonSite::JSON_WRITERS = boost::assign::list_of
@@ -62,7 +65,7 @@ char * JsonSite::actionJson() {
             addKeyValuePairToOutput_(OUTPUT_KEY_NAME, oss.str());
         }
         else {
-            addKeyValuePairToOutputAsString_(OUTPUT_KEY_NAME, oss.str());
+            addKeyValuePairToOutputAsString_(OUTPUT_KEY_NAME, escape_(oss.str()));
         }
         addKeyValuePairToOutput_(ERROR_KEY_NAME, "null", true);
     }
@@ -70,7 +73,7 @@ char * JsonSite::actionJson() {
         oss << "There are some problems: " << e.what();
 
         addKeyValuePairToOutput_(OUTPUT_KEY_NAME, "null");
-        addKeyValuePairToOutputAsString_(ERROR_KEY_NAME, oss.str(), true);
+        addKeyValuePairToOutputAsString_(ERROR_KEY_NAME, escape_(oss.str()), true);
     }
 
     output_ << " }";
@@ -95,12 +98,23 @@ bool JsonSite::isJavascriptOutput_(std::string pipe) {
 }
 
 std::string JsonSite::escape_(const std::string& text) {
-    std::string escapedText(text);
+    std::ostringstream escapedText;
 
-    typedef std::map<std::string, std::string> string_map;
-    BOOST_FOREACH(const string_map::value_type& pair, ESCAPED_CHARS) {
-        boost::replace_all(escapedText, pair.first, pair.second);
+    BOOST_FOREACH(char ch, text) {
+        std::map<std::string, std::string>::const_iterator escaped
+            = ESCAPED_CHARS.find(std::string(1, ch));
+
+        if (escaped != ESCAPED_CHARS.end()) {
+            escapedText << escaped->second;
+        }
+        else if (static_cast<unsigned char>(ch) < 0x20) {
+            escapedText << "\\u" << std::hex << std::setw(4) << std::setfill('0')
+                << static_cast<int>(ch);
+        }
+        else {
+            escapedText << ch;
+        }
     }
 
-    return escapedText;
+    return escapedText.str();
 }
-- 
2.43.0


From 6d2697ba7673674ccc4a950c504a066144a532f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:38 +0000
Subject: [PATCH 09/47] fix: encode session data and outputs put into the pages
 of the server

The input text, an output of unknown type, the name of a processor and the
values of psisOptions were put into the page without encoding.
---
 server/site/pipe_site.cpp                    | 36 +++++++++++++++-----
 server/site/pipe_site.hpp                    |  5 ++-
 server/site/processor_documentation_site.cpp |  7 ++--
 3 files changed, 36 insertions(+), 12 deletions(-)

diff --git a/server/site/pipe_site.cpp b/server/site/pipe_site.cpp
index cccc779..c176fb1 100644
--- a/server/site/pipe_site.cpp
+++ b/server/site/pipe_site.cpp
@@ -49,7 +49,7 @@ void PipeSite::registerIncludesAndActions_() {
 
 char * PipeSite::inputText() {
     std::string input = getOrSetDefaultData_("input-text", initialText_);
-    return stringToChar(input);
+    return stringToChar(encodeHTML_(input));
 }
 
 char * PipeSite::pipeText() {
@@ -112,10 +112,10 @@ char * PipeSite::hiddenOptions() {
 
     std::string opts =
         std::string("psisOptions = {") +
-        std::string("'isInputFile' : '") + fileOnOff + std::string("', ") +
-        std::string("'fileToDownload' : '") + outputFile + std::string("', ") +
-        std::string("'initialOutputType' : '") + outputType + std::string("', " ) +
-        std::string("'errorOccured' : '") + errorOccured + std::string("' ") +
+        std::string("'isInputFile' : '") + encodeJavaScript_(fileOnOff) + std::string("', ") +
+        std::string("'fileToDownload' : '") + encodeJavaScript_(outputFile) + std::string("', ") +
+        std::string("'initialOutputType' : '") + encodeJavaScript_(outputType) + std::string("', " ) +
+        std::string("'errorOccured' : '") + encodeJavaScript_(errorOccured) + std::string("' ") +
         std::string("};");
 
     psiServer_.session()->clearData("radio-file");
@@ -235,9 +235,9 @@ std::string PipeSite::generateOutput_(const std::string& rawOutput) {
             output << rawOutput;
         }
         else {
-            output << "<a href=\"" << psiServer_.session()->getData("output-file")
+            output << "<a href=\"" << encodeHTML_(psiServer_.session()->getData("output-file"))
                 << "\" target=\"_blank\" >"
-                << "<img src=\"" << psiServer_.session()->getData("output-file")
+                << "<img src=\"" << encodeHTML_(psiServer_.session()->getData("output-file"))
                 << "\" alt=\"image output\" />"
                 << "</a>";
         }
@@ -249,7 +249,7 @@ std::string PipeSite::generateOutput_(const std::string& rawOutput) {
         output << "<pre>" << encodeHTML_(rawOutput) << "</pre>";
     }
     if (type == FileRecognizer::UNKNOWN_TYPE) {
-        output << "<pre>" << rawOutput << "</pre>";
+        output << "<pre>" << encodeHTML_(rawOutput) << "</pre>";
         output << "[output format not recognized]";
     }
 
@@ -273,3 +273,23 @@ std::string PipeSite::encodeHTML_(const std::string& data) {
 
     return buffer;
 }
+
+std::string PipeSite::encodeJavaScript_(const std::string& data) {
+    std::string buffer;
+    buffer.reserve(data.size());
+
+    for (size_t pos = 0; pos != data.size(); ++pos) {
+        switch (data[pos]) {
+            case '\\': buffer.append("\\\\");     break;
+            case '\"': buffer.append("\\x22");    break;
+            case '\'': buffer.append("\\x27");    break;
+            case '<':  buffer.append("\\x3c");    break;
+            case '>':  buffer.append("\\x3e");    break;
+            case '\n': buffer.append("\\n");      break;
+            case '\r': buffer.append("\\r");      break;
+            default:   buffer.append(1, data[pos]); break;
+        }
+    }
+
+    return buffer;
+}
diff --git a/server/site/pipe_site.hpp b/server/site/pipe_site.hpp
index 2e8c364..1b16042 100644
--- a/server/site/pipe_site.hpp
+++ b/server/site/pipe_site.hpp
@@ -22,6 +22,9 @@ public:
     char * outputText();
 
     char * hiddenOptions();
+
+    static std::string encodeHTML_(const std::string& data);
+
 private:
 
     void registerIncludesAndActions_();
@@ -49,7 +52,7 @@ private:
     static const std::string GUESSING_READER;
     void tryToAddGuessingReader_(std::string& pipe);
 
-    std::string encodeHTML_(const std::string& data);
+    std::string encodeJavaScript_(const std::string& data);
 
     EncodingConverter encodingConverter_;
 
diff --git a/server/site/processor_documentation_site.cpp b/server/site/processor_documentation_site.cpp
index cdc1eb4..3ad69a3 100644
--- a/server/site/processor_documentation_site.cpp
+++ b/server/site/processor_documentation_site.cpp
@@ -3,6 +3,7 @@
 #include <boost/foreach.hpp>
 
 #include "processor_documentation_site.hpp"
+#include "pipe_site.hpp"
 #include "pipe_runner.hpp"
 #include "session_manager.hpp"
 #include "html_help_formatter.hpp"
@@ -31,7 +32,7 @@ ProcessorDocumentationSite::ProcessorDocumentationSite(PsiServer& server)
 }
 
 char * ProcessorDocumentationSite::processorName() {
-    return stringToChar(name_);
+    return stringToChar(PipeSite::encodeHTML_(name_));
 }
 
 char * ProcessorDocumentationSite::processorFullName() {
@@ -44,7 +45,7 @@ char * ProcessorDocumentationSite::processorFullName() {
         fullName = name_;
     }
 
-    fullName = std::string("<span class=\"fullName\">") + fullName + std::string("</span>");
+    fullName = std::string("<span class=\"fullName\">") + PipeSite::encodeHTML_(fullName) + std::string("</span>");
     return stringToChar(fullName);
 }
 
@@ -62,7 +63,7 @@ char * ProcessorDocumentationSite::actionProcessorDocumentation() {
         name_ = psiServer_.session()->getData(PROCESSOR_NAME_PARAM);
 
         if (not htmlHelpFormatter_.formatProcessorHelpsByName(name_, documentation_)) {
-            documentation_ << "Processor <code>" << name_ << "</code> not found." << std::endl;
+            documentation_ << "Processor <code>" << PipeSite::encodeHTML_(name_) << "</code> not found." << std::endl;
             name_ = PROCESSOR_NOT_FOUND;
         }
     }
-- 
2.43.0


From 8c0b8c3b41fb826370196e4a02b9a3879029db85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:51 +0000
Subject: [PATCH 10/47] fix: gv-writer does not dereference an empty set of
 nodes

---
 formats/gv/gv_lattice_writer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/formats/gv/gv_lattice_writer.cpp b/formats/gv/gv_lattice_writer.cpp
index 9f2ef4c..f9f2f28 100644
--- a/formats/gv/gv_lattice_writer.cpp
+++ b/formats/gv/gv_lattice_writer.cpp
@@ -243,7 +243,7 @@ void GVLatticeWriter::Worker::doRun() {
             printEdge(edge, quoter, ordinal, edgeOrdinalMap, vertexNodes, startVertices);
         }
 
-        if (processor_.isAlign() && !processor_.isTree()) {
+        if (processor_.isAlign() && !processor_.isTree() && !vertexNodes.empty()) {
             std::map<int, int>::iterator vni = vertexNodes.begin();
             int prevKey = vni->first;
             int prevVal = vni->second;
-- 
2.43.0


From 75e2a23b30e6b7da27f519a2c278b9734720f3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:51 +0000
Subject: [PATCH 11/47] fix: dot-writer writes well-formed graphs

Quote the labels of edges (quotation marks were left as they were), close
the label of a partition and do not dereference an empty set of nodes.
---
 formats/dot/dot_lattice_writer.cpp | 27 +++++++++++++++++++++++----
 formats/dot/dot_lattice_writer.hpp |  1 +
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/formats/dot/dot_lattice_writer.cpp b/formats/dot/dot_lattice_writer.cpp
index 851d1e0..e619e51 100644
--- a/formats/dot/dot_lattice_writer.cpp
+++ b/formats/dot/dot_lattice_writer.cpp
@@ -167,7 +167,7 @@ void DotLatticeWriter::Worker::doRun() {
             edgeOrdinalMap[edge] = ordinal;
             edgeIdSs << ordinal;
 
-            edgeSs << edgeIdSs.str() << " [label=\"" << edgeLabelSs.str() << "\"";
+            edgeSs << edgeIdSs.str() << " [label=\"" << quoteLabel_(edgeLabelSs.str()) << "\"";
             if (processor_.isColor()) {
                 edgeSs << ",color=\"" << colorSs.str() << "\"";
             }
@@ -192,7 +192,7 @@ void DotLatticeWriter::Worker::doRun() {
                         edSs << moi->second;
                         edgeSs << "\n" << edgeIdSs.str() << " -> " << edSs.str();
                         if (partitions.size() > 1) {
-                            edgeSs << " [label=\"" << partSs.str() << "]";
+                            edgeSs << " [label=\"" << partSs.str() << "\"]";
                         }
                     }
                 }
@@ -224,7 +224,7 @@ void DotLatticeWriter::Worker::doRun() {
             }
 
             edgeSs << nSs.str() << " -> " << mSs.str();
-            edgeSs << " [label=\"" << edgeLabelSs.str() << "\"";
+            edgeSs << " [label=\"" << quoteLabel_(edgeLabelSs.str()) << "\"";
             if (processor_.isColor()) {
                 edgeSs << ",color=\"" << colorSs.str() << "\"";
             }
@@ -239,7 +239,7 @@ void DotLatticeWriter::Worker::doRun() {
 
     }
 
-    if (processor_.isAlign()) {
+    if (processor_.isAlign() && !vertexNodes.empty()) {
         std::set<int>::iterator vni = vertexNodes.begin();
         int prev = *vni;
         int next;
@@ -261,5 +261,24 @@ void DotLatticeWriter::Worker::doRun() {
     DEBUG("WRITING");
 }
 
+std::string DotLatticeWriter::Worker::quoteLabel_(const std::string& label) {
+    // an escaped character (e.g. \n) is left as it is
+    std::string quoted;
+
+    for (size_t i = 0; i < label.length(); ++i) {
+        if (label[i] == '\\' && i + 1 < label.length() && label[i + 1] != '"') {
+            quoted += label[i];
+            quoted += label[++i];
+        } else if (label[i] == '\\' || label[i] == '"') {
+            quoted += '\\';
+            quoted += label[i];
+        } else {
+            quoted += label[i];
+        }
+    }
+
+    return quoted;
+}
+
 DotLatticeWriter::Worker::~Worker() {
 }
diff --git a/formats/dot/dot_lattice_writer.hpp b/formats/dot/dot_lattice_writer.hpp
index 184d37c..a066a5b 100644
--- a/formats/dot/dot_lattice_writer.hpp
+++ b/formats/dot/dot_lattice_writer.hpp
@@ -73,6 +73,7 @@ private:
 
         virtual ~Worker();
     private:
+        static std::string quoteLabel_(const std::string& label);
         DotLatticeWriter& processor_;
     };
 
-- 
2.43.0


From 0efb1486946be1a5d03bb80ee285aed1d99fb1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:06 +0000
Subject: [PATCH 12/47] fix: stop looking for aliases when the depth limit is
 exceeded

A loop in alias definitions ended in an endless recursion.
---
 framework/aliaser.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/framework/aliaser.cpp b/framework/aliaser.cpp
index a32e67c..befc324 100644
--- a/framework/aliaser.cpp
+++ b/framework/aliaser.cpp
@@ -90,9 +90,11 @@ void Aliaser::findAliases_(
     if (isAlias(name))
         aliases.insert(name);
 
-    if (depthLimit == 0)
+    if (depthLimit == 0) {
         WARN("search depth limit exceeded for `" << name
              << "` , there might be a loop in alias definitions");
+        return;
+    }
 
     std::map<std::string, std::set<std::string> >::const_iterator it
         = destinationAliases_.find(name);
-- 
2.43.0


From 311d4bd18f71176e52304a4649e1bbff9c35bf19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:06 +0000
Subject: [PATCH 13/47] fix: do not read an argument after --lang when there is
 none

---
 framework/pipe_runner.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/framework/pipe_runner.cpp b/framework/pipe_runner.cpp
index 62159cd..5e5f2fe 100644
--- a/framework/pipe_runner.cpp
+++ b/framework/pipe_runner.cpp
@@ -621,9 +621,10 @@ boost::program_options::variables_map PipeRunner::tryOptions_(
             if (iter != processorArgsWithoutLang.end()) {
                 std::list<std::string>::iterator b_iter = iter;
                 ++b_iter;
-                std::string langCode = *b_iter;
 
                 if (b_iter != processorArgsWithoutLang.end()) {
+                    std::string langCode = *b_iter;
+
                     ++b_iter;
                     processorArgsWithoutLang.erase(iter, b_iter);
 
-- 
2.43.0


From 879a3ffd005586501f404548d591dab830751e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:38 +0000
Subject: [PATCH 14/47] fix: release the charset detector when it fails

---
 common/encoding_converter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/common/encoding_converter.cpp b/common/encoding_converter.cpp
index de73755..cc4946d 100644
--- a/common/encoding_converter.cpp
+++ b/common/encoding_converter.cpp
@@ -94,6 +94,7 @@ bool EncodingConverter::detect_(const char* input, size_t length, std::string& e
     int result = uchardet_handle_data(handle, input, length);
     if (result != 0) {
         WARN("uchardet handling data error");
+        uchardet_delete(handle);
         return false;
     }
     uchardet_data_end(handle);
-- 
2.43.0


From 8d53d1223232d747f5680c0905312cd9c46c3ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:53 +0000
Subject: [PATCH 15/47] fix: name the encodings as they are named by the
 detector and the converter

ISO-2022-JP, x-mac-cyrillic and CP936 were misspelt, so a text detected as
one of them was not converted.
---
 common/encoding_converter.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/common/encoding_converter.cpp b/common/encoding_converter.cpp
index cc4946d..280fc61 100644
--- a/common/encoding_converter.cpp
+++ b/common/encoding_converter.cpp
@@ -24,10 +24,10 @@ std::map<std::string, int> EncodingConverter::CHARSET_CODES = boost::assign::map
     ("windows-1256",    7)
     ("windows-1257",    8)
     ("windows-1258",    9)
-    ("CP939",           10)
+    ("CP936",           10)
     ("HZ-GB-2312",      11) // or EUC-CN like in tiniconv/tiniconv_desc.c?
     ("GBK",             12)
-    ("ISO-2020-JP",     13)
+    ("ISO-2022-JP",     13)
     ("ISO-8859-1",      14) // doesn't exist in uchardet
     ("ISO-8859-2",      15)
     ("ISO-8859-3",      16) // doesn't exist in uchardet
@@ -47,7 +47,7 @@ std::map<std::string, int> EncodingConverter::CHARSET_CODES = boost::assign::map
     ("KOI8-R",          30)
     ("KOI8-RU",         31) // doesn't exist in uchardet
     ("KOI8-U",          32) // doesn't exist in uchardet
-    ("x-max-cyrillic",  33)
+    ("x-mac-cyrillic",  33)
     ("UCS-2",           34) // doesn't exist in uchardet
     ("UTF-7",           35) // doesn't exist in uchardet
     ("UTF-8",           36)
-- 
2.43.0


From aea5bb2b6f76921849dcfc5fea4cc0921f286286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:37 +0000
Subject: [PATCH 16/47] fix: convert texts longer than the buffer

The part of a converted text that did not fit into the buffer of 100 kB, or
that followed a NUL character, was dropped silently.
---
 common/encoding_converter.cpp | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/common/encoding_converter.cpp b/common/encoding_converter.cpp
index 280fc61..85819e7 100644
--- a/common/encoding_converter.cpp
+++ b/common/encoding_converter.cpp
@@ -148,19 +148,29 @@ bool EncodingConverter::convert_(int inCharsetId, int outCharsetId,
 
     unsigned char outputBuffer[BUFFER_SIZE];
     const char* inputChars = input.c_str();
-    int inputCharsLength = strlen(inputChars);
+    int inputCharsLength = input.length();
 
-    result = tiniconv_convert(&tiniconvStruct,
-                              (const unsigned char*)inputChars, inputCharsLength, &inSizeConsumed,
-                              outputBuffer, sizeof(outputBuffer) - 1, &outSizeConsumed);
+    std::string convertedInput;
 
-    if (result < TINICONV_CONVERT_OUT_TOO_SMALL) {
-        WARN("tiniconv convertion failed");
-        return false;
+    // the output buffer may be too small to store the whole text at once
+    while (inputCharsLength > 0) {
+        result = tiniconv_convert(&tiniconvStruct,
+                                  (const unsigned char*)inputChars, inputCharsLength,
+                                  &inSizeConsumed,
+                                  outputBuffer, sizeof(outputBuffer) - 1, &outSizeConsumed);
+
+        if (result < TINICONV_CONVERT_OUT_TOO_SMALL || inSizeConsumed <= 0) {
+            WARN("tiniconv convertion failed");
+            return false;
+        }
+
+        convertedInput.append((const char *)outputBuffer, outSizeConsumed);
+
+        inputChars += inSizeConsumed;
+        inputCharsLength -= inSizeConsumed;
     }
 
-    outputBuffer[outSizeConsumed] = 0;
-    output = std::string((const char *)outputBuffer);
+    output = convertedInput;
 
     DEBUG("tiniconv convertion output: [" << output << "]");
 
-- 
2.43.0


From 11c95396e166e7c2f00b54fc6c7e844bee726d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:04 +0000
Subject: [PATCH 17/47] fix: find an edge by the tags it was given when it was
 added again

Adding a partition to an edge extended its tags, but the index of a mask that
was already in use (and did not match the former tags) was not updated, so
inEdges() and outEdges() went on ignoring the edge for that mask.
---
 common/lattice.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/common/lattice.cpp b/common/lattice.cpp
index 51f6e03..b8240c7 100644
--- a/common/lattice.cpp
+++ b/common/lattice.cpp
@@ -210,6 +210,20 @@ Lattice::EdgeDescriptor Lattice::addEdge(
         if (edge.isExplicit()) {
             if (tags != oldTags) {
                 graph_[edge.descriptor].tagList = tags;
+
+                // the edge may match more of the indexed masks than it did
+                for (
+                    TagMasksHash::iterator iter = indexedTagMasks_.begin();
+                    iter != indexedTagMasks_.end();
+                    ++iter
+                ) {
+                    if (matches(tags, iter->first) && !matches(oldTags, iter->first)) {
+                        graph_[boost::source(edge.descriptor, graph_)]
+                            .outEdgesIndex[iter->second].push_back(edge.descriptor);
+                        graph_[boost::target(edge.descriptor, graph_)]
+                            .inEdgesIndex[iter->second].push_back(edge.descriptor);
+                    }
+                }
             }
             if (score > oldScore) {
                 graph_[edge.descriptor].score = score;
-- 
2.43.0


From b0595f047e5872599fb6d7dc8c51d0bbc259bb7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:04 +0000
Subject: [PATCH 18/47] fix: skip the edge that was checked, not the one after
 it

The last out-edge of a vertex made the iterator go beyond the end.
---
 common/lattice.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/lattice.hpp b/common/lattice.hpp
index 2f8a788..cd137c8 100644
--- a/common/lattice.hpp
+++ b/common/lattice.hpp
@@ -913,7 +913,7 @@ Lattice::EdgeSequence Lattice::getPathWithSkipping(
                 while (iter.hasNext()) {
                     EdgeDescriptor currentOne = iter.next();
                     if (skippingPredicate(*this, currentOne)) {
-                        bestOne = iter.next();
+                        bestOne = currentOne;
                     }
                 }
                 pathBuilder.addEdge(bestOne);
-- 
2.43.0


From f22a4aefea6479c84b957417777843684b8c172c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:30 +0000
Subject: [PATCH 19/47] fix: release the texts of the values when items are
 compared

---
 common/annotation_item.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/common/annotation_item.cpp b/common/annotation_item.cpp
index d13c08f..435d407 100644
--- a/common/annotation_item.cpp
+++ b/common/annotation_item.cpp
@@ -65,6 +65,7 @@ bool AnnotationItem::areAttributesTheSame_(const AnnotationItem& other) const {
            delete [] valStr;
            return false;
        }
+       delete [] valStr;
    }
 
    return true;
-- 
2.43.0


From b14e1cb5dab140fe09229a81f4954a5cd936c67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:08 +0000
Subject: [PATCH 20/47] fix: insert nothing when the inserted text is empty

An edge from an uninitialised vertex was added.
---
 common/lattice.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/common/lattice.cpp b/common/lattice.cpp
index b8240c7..b2ff2a3 100644
--- a/common/lattice.cpp
+++ b/common/lattice.cpp
@@ -837,8 +837,11 @@ int Lattice::getLooseVertexIndex(VertexDescriptor vd) const {
 }
 
 void Lattice::correctionInsert(VertexDescriptor here, std::string text) {
+    if (text.empty()) {
+        return;
+    }
     VertexDescriptor from = here;
-    VertexDescriptor to;
+    VertexDescriptor to = here;
     std::string::iterator iter = text.begin();
     std::string::iterator end = text.end();
     while (iter != end) {
-- 
2.43.0


From 0542383bdf8b6ee495c85cb6dffd711a7e68a1ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:14 +0000
Subject: [PATCH 21/47] fix: order the data of edges printed by
 bracketing-writer consistently

The fields were compared one by one without checking whether the former ones
were equal, which is no strict weak ordering.
---
 .../bracketing-writer/edge_data.hpp           | 30 ++++++++++++++-----
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/formats/bracketing/bracketing-writer/edge_data.hpp b/formats/bracketing/bracketing-writer/edge_data.hpp
index 9b4f843..f24d812 100644
--- a/formats/bracketing/bracketing-writer/edge_data.hpp
+++ b/formats/bracketing/bracketing-writer/edge_data.hpp
@@ -76,14 +76,28 @@ struct EdgeData {
     }
 
     bool operator<(const EdgeData & other) const {
-        return category < other.category ||
-            text < other.text ||
-            score < other.score ||
-            tags < other.tags ||
-            avMap < other.avMap ||
-            role < other.role ||
-            begin < other.begin ||
-            end < other.end;
+        if (category != other.category) {
+            return category < other.category;
+        }
+        if (text != other.text) {
+            return text < other.text;
+        }
+        if (score != other.score) {
+            return score < other.score;
+        }
+        if (tags != other.tags) {
+            return tags < other.tags;
+        }
+        if (avMap != other.avMap) {
+            return avMap < other.avMap;
+        }
+        if (role != other.role) {
+            return role < other.role;
+        }
+        if (begin != other.begin) {
+            return begin < other.begin;
+        }
+        return end < other.end;
     }
 };
 
-- 
2.43.0


From 5334b9514ea3f7d58e0e217c251fb01e22419d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:30 +0000
Subject: [PATCH 22/47] fix: psi-server reports a failed start by its exit
 status instead of being aborted or returning success

---
 server/psi-server.cpp    | 13 +++++++++++--
 server/server_runner.cpp |  1 +
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/server/psi-server.cpp b/server/psi-server.cpp
index 89c9aec..f97674e 100644
--- a/server/psi-server.cpp
+++ b/server/psi-server.cpp
@@ -1,3 +1,5 @@
+#include <exception>
+#include <iostream>
 #include <string>
 
 #include "server_runner.hpp"
@@ -9,8 +11,15 @@ int main(int argc, char* argv[]) {
 
     checkIfRunAsInstalled(argv[0]);
 
-    ServerRunner serverRunner(argc, argv);
-    return serverRunner.run();
+    try {
+        ServerRunner serverRunner(argc, argv);
+        return serverRunner.run();
+    } catch (std::exception& ex) {
+        std::cerr << ex.what() << std::endl
+                  << "ABORTED!" << std::endl;
+
+        return 1;
+    }
 }
 
 
diff --git a/server/server_runner.cpp b/server/server_runner.cpp
index 3e7a755..920fdac 100644
--- a/server/server_runner.cpp
+++ b/server/server_runner.cpp
@@ -102,6 +102,7 @@ int ServerRunner::run() {
     }
     catch (std::exception& e) {
         ERROR("Exception: " << e.what());
+        return 1;
     }
 
     return 0;
-- 
2.43.0


From 0494a61c34d834626f43e575f2d130351a6379fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:30 +0000
Subject: [PATCH 23/47] fix: derive the form parser's exception from
 std::exception, which its callers handle

---
 server/mpfd-parser/Exception.cpp | 6 +++++-
 server/mpfd-parser/Exception.h   | 7 +++++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/server/mpfd-parser/Exception.cpp b/server/mpfd-parser/Exception.cpp
index 576b40e..010579b 100644
--- a/server/mpfd-parser/Exception.cpp
+++ b/server/mpfd-parser/Exception.cpp
@@ -14,10 +14,14 @@ MPFD::Exception::Exception(const MPFD::Exception& orig) {
     Error = orig.Error;
 }
 
-MPFD::Exception::~Exception() {
+MPFD::Exception::~Exception() throw() {
 
 }
 
+const char* MPFD::Exception::what() const throw() {
+    return Error.c_str();
+}
+
 std::string MPFD::Exception::GetError() const {
     return Error;
 }
diff --git a/server/mpfd-parser/Exception.h b/server/mpfd-parser/Exception.h
index e4d0e87..7163adf 100644
--- a/server/mpfd-parser/Exception.h
+++ b/server/mpfd-parser/Exception.h
@@ -7,6 +7,7 @@
 #ifndef _EXCEPTION_H
 #define	_EXCEPTION_H
 
+#include <exception>
 #include <string>
 #include <iostream>
 #include <errno.h>
@@ -14,11 +15,13 @@
 
 namespace MPFD {
 
-    class Exception {
+    class Exception : public std::exception {
     public:
         Exception(std::string error);
         Exception(const Exception& orig);
-        virtual ~Exception();
+        virtual ~Exception() throw();
+
+        virtual const char* what() const throw();
 
         std::string GetError() const;
 
-- 
2.43.0


From 1161b6159073b44acf91230f84d150425f7df4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:28 +0000
Subject: [PATCH 24/47] fix: puddle tagset ignores the attributes of an unknown
 part of speech

---
 tools/parsers/puddle/tagset.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tools/parsers/puddle/tagset.cpp b/tools/parsers/puddle/tagset.cpp
index 5b9642a..e72a44b 100644
--- a/tools/parsers/puddle/tagset.cpp
+++ b/tools/parsers/puddle/tagset.cpp
@@ -455,6 +455,8 @@ std::map<std::string, std::string> Tagset::getAttributes(
             if (attributes.empty()) {
                 std::map<std::string, std::vector<std::string> >::iterator pi =
                     partsOfSpeech.find(pos);
+                if (pi == partsOfSpeech.end())
+                    break;
                 attributes = pi->second;
             }
             std::vector<std::string>::iterator ai = attributes.begin() +
-- 
2.43.0


From b9a191b2d3913c6a7c11d2cd41ad016819ef890e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:45 +0000
Subject: [PATCH 25/47] fix: tp-tokenizer reports #else and #endif without #if
 instead of reading an empty list

---
 tools/tokenizers/tp/tp_basic_tokenizer_rule_set.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/tools/tokenizers/tp/tp_basic_tokenizer_rule_set.cpp b/tools/tokenizers/tp/tp_basic_tokenizer_rule_set.cpp
index f96d444..3d52c4b 100644
--- a/tools/tokenizers/tp/tp_basic_tokenizer_rule_set.cpp
+++ b/tools/tokenizers/tp/tp_basic_tokenizer_rule_set.cpp
@@ -487,6 +487,10 @@ void TPBasicTokenizerRuleSet::readElse(
     std::string context, size_t & filePos,
     std::list<IfElem> & ifstack) {
 
+    if (ifstack.empty())
+        throw TPTokenizerException(std::string("else without if")
+                                   +context+std::string(":")+itoa(filePos));
+
     if (!openedIf && ifstack.back().getValue()) {
 
         if (ifstack.back().getType() == TELSE)
@@ -505,6 +509,9 @@ void TPBasicTokenizerRuleSet::readElse(
 
 void TPBasicTokenizerRuleSet::readEndIf(std::list<IfElem> & ifstack) {
 
+    if (ifstack.empty())
+        throw TPTokenizerException("endif without if");
+
     if (!openedIf && ifstack.back().getValue()) {
         openedIf = true;
     }
-- 
2.43.0


From 500121b33cd6996792f8ea4894e64e3c50e16aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:03 +0000
Subject: [PATCH 26/47] fix: handle one request at a time, sites and sessions
 are shared by all threads

---
 server/psi_request_handler.cpp | 2 ++
 server/psi_request_handler.hpp | 5 +++++
 2 files changed, 7 insertions(+)

diff --git a/server/psi_request_handler.cpp b/server/psi_request_handler.cpp
index 64a51db..4820e9c 100644
--- a/server/psi_request_handler.cpp
+++ b/server/psi_request_handler.cpp
@@ -37,6 +37,8 @@ std::map<std::string, std::string> PsiRequestHandler::fileExceptionsToContentTyp
 void PsiRequestHandler::handle_request(
     const http::server3::request& req, http::server3::reply& rep
 ) {
+    boost::mutex::scoped_lock lock(mutex_);
+
     http::server3::request req_modified = req;
 
     // session management
diff --git a/server/psi_request_handler.hpp b/server/psi_request_handler.hpp
index abe865f..489b5ec 100644
--- a/server/psi_request_handler.hpp
+++ b/server/psi_request_handler.hpp
@@ -3,6 +3,8 @@
 #ifndef PSI_SERVER_HANDLER_HDR
 #define PSI_SERVER_HANDLER_HDR
 
+#include <boost/thread/mutex.hpp>
+
 #include "server/request_handler.hpp"
 
 class PsiServer;
@@ -19,6 +21,9 @@ public:
 private:
     PsiServer* psi_server_;
 
+    // sites and sessions are shared by the threads of the server
+    boost::mutex mutex_;
+
     static std::map<std::string, std::string> filesToContentTypes;
     static std::map<std::string, std::string> fileExceptionsToContentTypes;
 
-- 
2.43.0


From ecce0ad71d036e71bc80ee2d8adb6853646b2f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:07 +0000
Subject: [PATCH 27/47] fix: the JSON site gives its answer only to the request
 that asked for it

---
 server/site/json_site.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/server/site/json_site.cpp b/server/site/json_site.cpp
index c6beccf..142dfea 100644
--- a/server/site/json_site.cpp
+++ b/server/site/json_site.cpp
@@ -38,7 +38,12 @@ JsonSite::JsonSite(PsiServer& server) : TemplateSite(server), output_("{}") {
 }
 
 char * JsonSite::jsonOutput() {
-    return stringToChar(output_.str());
+    std::string output = output_.str();
+
+    // the answer belongs to the request that asked for it
+    output_.str("{}");
+
+    return stringToChar(output);
 }
 
 char * JsonSite::actionJson() {
-- 
2.43.0


From f502d9402b21958d2ee4c1c611621c6803f409e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:07 +0000
Subject: [PATCH 28/47] fix: do not show the output of one visitor to others as
 the initial one

---
 server/site/pipe_site.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/server/site/pipe_site.cpp b/server/site/pipe_site.cpp
index c176fb1..c3689b9 100644
--- a/server/site/pipe_site.cpp
+++ b/server/site/pipe_site.cpp
@@ -98,9 +98,6 @@ char * PipeSite::actionPipe() {
     std::string output = runPipe_(pipe, input);
     psiServer_.session()->setData("output-text", output);
 
-    if (initialOutput_.empty())
-        initialOutput_ = output;
-
     return stringToChar(std::string("/psitoolkit.html"));
 }
 
-- 
2.43.0


From 6746b89e6c9ac9a53d50e0634a8df4aefe1eebb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:59 +0000
Subject: [PATCH 29/47] fix: bracketing-writer omits loose edges, which have no
 place in the text, instead of aborting

---
 .../bracketing-writer/bracketing_lattice_writer.hpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/formats/bracketing/bracketing-writer/bracketing_lattice_writer.hpp b/formats/bracketing/bracketing-writer/bracketing_lattice_writer.hpp
index 7c4eb3b..0a4b9b6 100644
--- a/formats/bracketing/bracketing-writer/bracketing_lattice_writer.hpp
+++ b/formats/bracketing/bracketing-writer/bracketing_lattice_writer.hpp
@@ -181,7 +181,9 @@ void BracketingLatticeWriter::Worker::doRun_() {
         }
 
         BOOST_FOREACH(EdgeData ed, collectedEdges) {
-            BracketPrinter::insertElementIntoContainer(edgeStore[*ed.begin][*ed.end], ed);
+            if (ed.begin && ed.end) {
+                BracketPrinter::insertElementIntoContainer(edgeStore[*ed.begin][*ed.end], ed);
+            }
         }
 
     } else {
@@ -194,9 +196,12 @@ void BracketingLatticeWriter::Worker::doRun_() {
                 continue;
             }
             EdgeData edgeData = getEdgeData_(edge);
-            BracketPrinter::insertElementIntoContainer(
-                edgeStore[*edgeData.begin][*edgeData.end],
-                edgeData);
+            // a loose edge has no place in the text
+            if (edgeData.begin && edgeData.end) {
+                BracketPrinter::insertElementIntoContainer(
+                    edgeStore[*edgeData.begin][*edgeData.end],
+                    edgeData);
+            }
         }
 
     }
-- 
2.43.0


From 68dbc3a6dc2a0a18ac3c48685e7077dcee9ba310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:45 +0000
Subject: [PATCH 30/47] fix: layer tag collections are ordered by a strict weak
 order

---
 common/layer_tag_collection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/layer_tag_collection.cpp b/common/layer_tag_collection.cpp
index 248c1b9..e4582fe 100644
--- a/common/layer_tag_collection.cpp
+++ b/common/layer_tag_collection.cpp
@@ -12,7 +12,7 @@ bool LayerTagCollection::isNonempty() {
 }
 
 bool LayerTagCollection::operator<(LayerTagCollection other) const {
-    return v_.size() < other.v_.size() || (v_.size() == other.v_.size() && (v_ & other.v_) == v_);
+    return v_.to_ulong() < other.v_.to_ulong();
 }
 
 bool LayerTagCollection::operator==(const LayerTagCollection& other) const {
-- 
2.43.0


From c0796a2e2ab8cf5a55755d594aeeacc9ac540b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:45 +0000
Subject: [PATCH 31/47] fix: layer tag masks are ordered consistently with
 their equality

---
 common/layer_tag_mask.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/common/layer_tag_mask.cpp b/common/layer_tag_mask.cpp
index 74a2b06..721144e 100644
--- a/common/layer_tag_mask.cpp
+++ b/common/layer_tag_mask.cpp
@@ -35,10 +35,16 @@ bool LayerTagMask::isAny() const {
 }
 
 bool LayerTagMask::operator<(LayerTagMask other) const {
-    if (none_ && other.any_)
-        return true;
+    if (any_ != other.any_)
+        return other.any_;
+
+    if (any_)
+        return false;
+
+    if (none_ != other.none_)
+        return none_;
 
-    if (other.none_ && any_)
+    if (none_)
         return false;
 
     if (tagAlts_.size() < other.tagAlts_.size())
-- 
2.43.0


From 390057104d8d4483adc782617a7b3dccd14d9e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:45 +0000
Subject: [PATCH 32/47] fix: bonsai symbols whose labels begin alike are not
 equivalent

---
 tools/translators/bonsai/translator/TransferTypes.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/translators/bonsai/translator/TransferTypes.cpp b/tools/translators/bonsai/translator/TransferTypes.cpp
index 92a7be4..c95ec16 100644
--- a/tools/translators/bonsai/translator/TransferTypes.cpp
+++ b/tools/translators/bonsai/translator/TransferTypes.cpp
@@ -64,7 +64,7 @@ bool Symbol::operator<(Symbol s1) const {
     else if (label(i) > s1.label(i))
         return false;
     }
-    return false;
+    return size1 < size2;
 }
 
 
-- 
2.43.0


From ea5cd5dac3d387e04cefa3766fea527d92c57389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:45 +0000
Subject: [PATCH 33/47] fix: bonsai transformations are ordered by cost first,
 then by text

---
 tools/translators/bonsai/translator/Transformation.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tools/translators/bonsai/translator/Transformation.hpp b/tools/translators/bonsai/translator/Transformation.hpp
index c90b341..f692561 100644
--- a/tools/translators/bonsai/translator/Transformation.hpp
+++ b/tools/translators/bonsai/translator/Transformation.hpp
@@ -71,8 +71,11 @@ struct TransformationSorter {
         //std::cerr << lhs->str() << std::endl;
         //std::cerr << rhs->str() << std::endl;
 
-        return lhs->get_cost() + lhs->get_lm_heuristic() < rhs->get_cost() + rhs->get_lm_heuristic()
-                or lhs->str() < rhs->str();
+        double lhs_cost = lhs->get_cost() + lhs->get_lm_heuristic();
+        double rhs_cost = rhs->get_cost() + rhs->get_lm_heuristic();
+
+        return lhs_cost < rhs_cost
+                or (lhs_cost == rhs_cost and lhs->str() < rhs->str());
     }
 };
 
-- 
2.43.0


From 5d9a4f8008c51d8942ea776135d7f45d4c0b25dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:45 +0000
Subject: [PATCH 34/47] fix: a mask found to be empty has the hash of an empty
 mask

---
 common/layer_tag_mask.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/common/layer_tag_mask.cpp b/common/layer_tag_mask.cpp
index 721144e..7d7f6cd 100644
--- a/common/layer_tag_mask.cpp
+++ b/common/layer_tag_mask.cpp
@@ -15,6 +15,7 @@ bool LayerTagMask::isNone() {
     }
 
     none_ = true;
+    hash_ = 0;
     return true;
 }
 
-- 
2.43.0


From a9c820ac8873a97e048a10a8ef3295d20ea05a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:45 +0000
Subject: [PATCH 35/47] fix: an empty attribute value equals an absent one
 wherever it stands

---
 common/annotation_item.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/common/annotation_item.cpp b/common/annotation_item.cpp
index 435d407..11414ea 100644
--- a/common/annotation_item.cpp
+++ b/common/annotation_item.cpp
@@ -42,6 +42,13 @@ size_t AnnotationItem::resize_(size_t size) {
     return attributes_.size();
 }
 
+static bool isEmptyValue_(zvalue value) {
+    char * valStr = zvalue_to_string(value);
+    bool isEmpty = strcmp(valStr, "") == 0;
+    delete [] valStr;
+    return isEmpty;
+}
+
 bool AnnotationItem::areAttributesTheSame_(const AnnotationItem& other) const {
     size_t smallerSize = values_.size();
     size_t largerSize  = other.values_.size();
@@ -54,18 +61,16 @@ bool AnnotationItem::areAttributesTheSame_(const AnnotationItem& other) const {
     }
 
    for (size_t i = 0; i < smallerSize; ++i) {
-       if (values_[i] != other.values_[i]) {
+       if (values_[i] != other.values_[i]
+           && !(isEmptyValue_(values_[i]) && isEmptyValue_(other.values_[i]))) {
            return false;
        }
    }
 
    for (size_t i = smallerSize; i < largerSize; ++i) {
-       char * valStr = zvalue_to_string((*largerVector)[i]);
-       if (strcmp(valStr, "") != 0) {
-           delete [] valStr;
+       if (!isEmptyValue_((*largerVector)[i])) {
            return false;
        }
-       delete [] valStr;
    }
 
    return true;
-- 
2.43.0


From dc74b33510d115a4591ba5e591891ea1637a0136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:45 +0000
Subject: [PATCH 36/47] fix: tags read from a PSI file are unescaped

---
 formats/psi/psi_reader/psi_lattice_reader.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/formats/psi/psi_reader/psi_lattice_reader.hpp b/formats/psi/psi_reader/psi_lattice_reader.hpp
index 1c2a80a..0756824 100644
--- a/formats/psi/psi_reader/psi_lattice_reader.hpp
+++ b/formats/psi/psi_reader/psi_lattice_reader.hpp
@@ -84,7 +84,7 @@ struct PsiLRItem {
 
     void unescape(Quoter & quoter) {
         text = quoter.unescape(text);
-        BOOST_FOREACH(std::string tag, tags) {
+        BOOST_FOREACH(std::string & tag, tags) {
             tag = quoter.unescape(tag);
         }
         annotationText = quoter.unescape(annotationText);
-- 
2.43.0


From 0fd8497cf27092514928076b09ab6a24e2f9dff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:45 +0000
Subject: [PATCH 37/47] fix: partition tags are escaped in PSI files

---
 formats/psi/psi_writer/psi_lattice_writer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/formats/psi/psi_writer/psi_lattice_writer.cpp b/formats/psi/psi_writer/psi_lattice_writer.cpp
index 93fe86d..a6522a9 100644
--- a/formats/psi/psi_writer/psi_lattice_writer.cpp
+++ b/formats/psi/psi_writer/psi_lattice_writer.cpp
@@ -374,7 +374,7 @@ void PsiLatticeWriter::Worker::printEdge(
                 }
                 partitionTagStr += partitionTagName;
             }
-            partSs << "(" << partitionTagStr << ")";
+            partSs << "(" << quoter.escape(partitionTagStr) << ")";
         }
         Lattice::Score partitionScore = partition.getScore();
         if (partitionScore != score) {
-- 
2.43.0


From b1a0fffe9ec51a19bbb7edbe92c6f228a62b4fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:20 +0000
Subject: [PATCH 38/47] fix: the cost of a transformation made from an edge was
 summed up from an uninitialised value

---
 tools/translators/bonsai/rules/RuleLoader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/translators/bonsai/rules/RuleLoader.cpp b/tools/translators/bonsai/rules/RuleLoader.cpp
index 4570286..4e0a2f1 100644
--- a/tools/translators/bonsai/rules/RuleLoader.cpp
+++ b/tools/translators/bonsai/rules/RuleLoader.cpp
@@ -102,7 +102,7 @@ void RuleLoader::fill_empty(Lattice& lattice,
 
                 Floats costs;
                 costs.resize(tm_weights.size(), 10);
-        double cost;
+        double cost = 0;
                 for (size_t i = 0; i < tm_weights.size(); i++)
                     cost += tm_weights[i]*costs[i];
 
-- 
2.43.0


From 9e2023b799522f4c3ca351fafe611dc148c3295d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:30 +0000
Subject: [PATCH 39/47] fix: CompressedDAG left members uninitialised that its
 destructor and decoder use

---
 tools/translators/bonsai/rules/CompressedDAG.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/tools/translators/bonsai/rules/CompressedDAG.cpp b/tools/translators/bonsai/rules/CompressedDAG.cpp
index 02601dc..561b98f 100644
--- a/tools/translators/bonsai/rules/CompressedDAG.cpp
+++ b/tools/translators/bonsai/rules/CompressedDAG.cpp
@@ -24,12 +24,14 @@ using namespace rules;
 
 CompressedDAG::CompressedDAG()
   : sf(NULL), af(NULL), mode(0), states(NULL), arcs(NULL),
-    sn(0), an(0), d_sn(0), da_start(0), da_length(0)
+    sn(0), an(0), d_states(NULL), d_arcs(NULL), d_sn(0),
+    da_start(0), da_length(0), achars(NULL), achars_size(0)
 { }
 
 CompressedDAG::CompressedDAG(unsigned int sn_, unsigned int an_)
   : sf(NULL), af(NULL), mode(0),
-    sn(sn_), an(an_), d_sn(0), da_start(0), da_length(0)
+    sn(sn_), an(an_), d_states(NULL), d_arcs(NULL), d_sn(0),
+    da_start(0), da_length(0), achars(NULL), achars_size(0)
       {
     assert((int)sn < std::numeric_limits<int>::max());  // maksmalnie 2^31 stanów, dla bezpieczeństwa
     assert((int)an < std::numeric_limits<int>::max());  // mozna zindeksować maksymalnie 2^31 przejść,
@@ -39,7 +41,9 @@ CompressedDAG::CompressedDAG(unsigned int sn_, unsigned int an_)
 }
 
 CompressedDAG::CompressedDAG(std::string prefix, int mode_ = 0)
-  : mode(mode_), d_sn(0), da_start(0), da_length(0) {
+  : sf(NULL), af(NULL), mode(mode_), states(NULL), arcs(NULL),
+    sn(0), an(0), d_states(NULL), d_arcs(NULL), d_sn(0),
+    da_start(0), da_length(0), achars(NULL), achars_size(0) {
     open(prefix, mode);
 }
 
-- 
2.43.0


From 392dc844744fc8dea65f34b06b1100685ff74ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:04 +0000
Subject: [PATCH 40/47] fix: a part of a text fragment that holds its own text
 was taken from the memory of another

---
 common/string_frag.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/common/string_frag.hpp b/common/string_frag.hpp
index e6b49ea..bb37bdf 100644
--- a/common/string_frag.hpp
+++ b/common/string_frag.hpp
@@ -56,13 +56,15 @@ public:
         size_t len
     ) :
 #if STRING_FRAG_VALIDATION
-        contents_(sf.src_.substr(sf.begin_ + begin, (std::min)(len, (size_t)ABBR_LENGTH))),
+        contents_(sf.stored_()
+            ? sf.contents_.substr(begin, len)
+            : sf.src_.substr(sf.begin_ + begin, (std::min)(len, (size_t)ABBR_LENGTH))),
 #else
-        contents_(""),
+        contents_(sf.stored_() ? sf.contents_.substr(begin, len) : std::string()),
 #endif
-        src_(sf.src_),
-        begin_(sf.begin_ + begin),
-        len_(len)
+        src_(sf.stored_() ? contents_ : sf.src_),
+        begin_(sf.stored_() ? std::string::npos : sf.begin_ + begin),
+        len_(sf.stored_() ? std::string::npos : len)
     {
 #if STRING_FRAG_VALIDATION
         if (len == std::string::npos) {
-- 
2.43.0


From b6f8ca4b014525bcd095c4a05d38ab11f4f289dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:47 +0000
Subject: [PATCH 41/47] fix: text fragments lost their text when others were
 appended and found characters beyond their end

---
 common/string_frag.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/common/string_frag.cpp b/common/string_frag.cpp
index 22ea01a..0590a39 100644
--- a/common/string_frag.cpp
+++ b/common/string_frag.cpp
@@ -74,7 +74,7 @@ void StringFrag::append(const StringFrag & other) {
     ) {
         len_ += other.len_;
         contents_ = src_.substr(begin_, (std::min)(len_, (size_t)ABBR_LENGTH));
-    } else if (contents_=="" && this != &other) {
+    } else if (length() == 0 && this != &other) {
         this->StringFrag::~StringFrag();
         new (this) StringFrag(other);
     } else {
@@ -95,7 +95,8 @@ size_t StringFrag::find(char c, size_t pos) const {
     if (stored_()) {
         return contents_.find(c, pos);
     }
-    return src_.find(c, begin_ + pos) - begin_;
+    size_t found = src_.find(c, begin_ + pos);
+    return found < begin_ + len_ ? found - begin_ : std::string::npos;
 }
 
 
-- 
2.43.0


From c17bfc18b469e21061340e8480945202c7abcc45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:24 +0000
Subject: [PATCH 42/47] fix: apertium-reader did not come to an end for format
 rules with escaped quotation marks or brackets

---
 formats/apertium/apertium_reader/format_specification.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/formats/apertium/apertium_reader/format_specification.cpp b/formats/apertium/apertium_reader/format_specification.cpp
index 285a55f..9a1fed0 100644
--- a/formats/apertium/apertium_reader/format_specification.cpp
+++ b/formats/apertium/apertium_reader/format_specification.cpp
@@ -282,6 +282,8 @@ void FormatSpecificationReader::removeQuotations_(std::string& str) {
         if (!Escaping::isEscaped(str, pos)) {
             str.erase(pos, 1);
             pos += 1;
+        } else {
+            pos += 1;
         }
     }
 }
@@ -293,6 +295,8 @@ void FormatSpecificationReader::removeBackreferences_(std::string& str) {
         if (!Escaping::isEscaped(str, pos) && !(pos+1 < str.length() && str[pos+1] == '?')) {
             str.replace(pos+1, 0, "?:");
             pos += 2;
+        } else {
+            pos += 1;
         }
     }
 }
-- 
2.43.0


From c422a30fde1437639783740cc375bf9d2151c899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:36 +0000
Subject: [PATCH 43/47] fix: an implicit edge replaced by an explicit one was
 taken for an equal edge ever after, so equal edges were added again

---
 common/lattice.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/common/lattice.cpp b/common/lattice.cpp
index b2ff2a3..ac8a90b 100644
--- a/common/lattice.cpp
+++ b/common/lattice.cpp
@@ -231,8 +231,11 @@ Lattice::EdgeDescriptor Lattice::addEdge(
             graph_[edge.descriptor].partitions.push_back(
                 Partition(tags, sequence, score, ruleId, treeChoice));
         } else {
+            // the implicit edge is replaced by the edge being added
+            std::vector<EdgeDescriptor> & equalEdges = (insertResult.first)->second;
+            equalEdges.erase(std::find(equalEdges.begin(), equalEdges.end(), edge));
+            --edgeCounterHash_[vpair];
             implicitOutEdges_.set(from, false);
-            edge.implicitIndex = -1;
             needToAddEdge = true;
         }
     }
-- 
2.43.0


From 18e5efca5fe70123d9a718516361f395177d71fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:00 +0000
Subject: [PATCH 44/47] fix: transferer went on counting the positions of
 target forms from one lattice to the next

---
 common/best_path_annotator.hpp                     | 2 ++
 tools/translators/bonsai/bonsai_runner.hpp         | 1 +
 tools/translators/transferer/transferer_runner.cpp | 4 ++++
 tools/translators/transferer/transferer_runner.hpp | 1 +
 4 files changed, 8 insertions(+)

diff --git a/common/best_path_annotator.hpp b/common/best_path_annotator.hpp
index c503a17..61f27ee 100644
--- a/common/best_path_annotator.hpp
+++ b/common/best_path_annotator.hpp
@@ -85,6 +85,8 @@ public:
         virtual void doRun() {
             T& engine = dynamic_cast<BestPathAnnotator&>(processor_).engine_;
 
+            engine.startLattice();
+
             Lattice::VertexDescriptor startVertex = lattice_.getFirstVertex();
 
             Lattice::EdgeSequence edgeSeq
diff --git a/tools/translators/bonsai/bonsai_runner.hpp b/tools/translators/bonsai/bonsai_runner.hpp
index a1dfaf5..43a503e 100644
--- a/tools/translators/bonsai/bonsai_runner.hpp
+++ b/tools/translators/bonsai/bonsai_runner.hpp
@@ -33,6 +33,7 @@ public:
 
     std::list<std::string> tagsToOperateOn();
 
+    void startLattice() {}
     void processEdge(Lattice& lattice, Lattice::EdgeDescriptor edge);
 
     class Exception : public PsiException  {
diff --git a/tools/translators/transferer/transferer_runner.cpp b/tools/translators/transferer/transferer_runner.cpp
index 165d84a..04d70f4 100644
--- a/tools/translators/transferer/transferer_runner.cpp
+++ b/tools/translators/transferer/transferer_runner.cpp
@@ -135,6 +135,10 @@ std::list<std::string> TransfererRunner::tagsToOperateOn() {
         (std::string("!parse"))(std::string("parse"))(LayerTagManager::getLanguageTag(langCode_));
 }
 
+void TransfererRunner::startLattice() {
+    formsCounter_ = 0;
+}
+
 void TransfererRunner::processEdge(Lattice& lattice, Lattice::EdgeDescriptor edge) {
     std::cerr << "PROCESSING:";
 
diff --git a/tools/translators/transferer/transferer_runner.hpp b/tools/translators/transferer/transferer_runner.hpp
index 073f564..ea0ed36 100644
--- a/tools/translators/transferer/transferer_runner.hpp
+++ b/tools/translators/transferer/transferer_runner.hpp
@@ -33,6 +33,7 @@ public:
 
     std::list<std::string> tagsToOperateOn();
 
+    void startLattice();
     void processEdge(Lattice& lattice, Lattice::EdgeDescriptor edge);
 
     void putTargetForms_(Lattice& lattice, zsyntree* targetTree, boost::shared_ptr<tmil::Transferer> transferer_);
-- 
2.43.0


From 4eddfcd80a807e682d3497abf84259f069c19175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:23 +0000
Subject: [PATCH 45/47] fix: gobio's low quality score was declared in the
 annotator and not in its factory, so it was never used

---
 tools/parsers/gobio/gobio.cpp | 2 +-
 tools/parsers/gobio/gobio.hpp | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/tools/parsers/gobio/gobio.cpp b/tools/parsers/gobio/gobio.cpp
index 5f64566..02ea2f1 100644
--- a/tools/parsers/gobio/gobio.cpp
+++ b/tools/parsers/gobio/gobio.cpp
@@ -406,7 +406,7 @@ std::string Gobio::leafSymbolToCategory_(
     return symbol;
 }
 
-double Gobio::doGetQualityScore(
+double Gobio::Factory::doGetQualityScore(
     const boost::program_options::variables_map & /*options*/) const {
 
     return -9999;
diff --git a/tools/parsers/gobio/gobio.hpp b/tools/parsers/gobio/gobio.hpp
index 427d178..e6c2ee9 100644
--- a/tools/parsers/gobio/gobio.hpp
+++ b/tools/parsers/gobio/gobio.hpp
@@ -100,6 +100,9 @@ public:
 
         virtual std::list<std::string> doProvidedLayerTags();
 
+        virtual double doGetQualityScore(
+            const boost::program_options::variables_map& options) const;
+
         static const std::string DEFAULT_RULE_FILE;
 
     public:
@@ -162,9 +165,6 @@ private:
 
     std::string leafSymbolToCategory_(
         const std::string& symbol);
-
-    virtual double doGetQualityScore(
-        const boost::program_options::variables_map& options) const;
 };
 
 
-- 
2.43.0


From a211c1e7daac9bb0947ed580daf275216b6ddf97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:13 +0000
Subject: [PATCH 46/47] fix: a POST request with an empty body was never
 answered

---
 server/server/request_parser.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/server/server/request_parser.cpp b/server/server/request_parser.cpp
index b7fc184..d269feb 100644
--- a/server/server/request_parser.cpp
+++ b/server/server/request_parser.cpp
@@ -296,6 +296,10 @@ boost::tribool request_parser::consume(request& req, char input)
                 state_ = multipart_start;
             }
             set_post_data_length(req);
+            if (post_data_length_ <= 0) {
+                // no body will follow
+                return true;
+            }
             return boost::indeterminate;
         }
         else {
-- 
2.43.0


From 7addb41745f0939b4bd36a25f0e22fd2ff510805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:21 +0000
Subject: [PATCH 47/47] fix: bodies of POST requests with line breaks were
 refused, and the last byte of multipart bodies was lost

---
 server/server/request_parser.cpp | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/server/server/request_parser.cpp b/server/server/request_parser.cpp
index d269feb..af67d65 100644
--- a/server/server/request_parser.cpp
+++ b/server/server/request_parser.cpp
@@ -312,20 +312,14 @@ boost::tribool request_parser::consume(request& req, char input)
         return false;
     }
   case post_line_start:
-    if (input != '\n' && input != '\r') {
-
-        if (post_data_length_counter_ < post_data_length_) {
-            post_data_length_counter_++;
-            req.post_data += input;
-            return boost::indeterminate;
-        }
-        else {
-            req.post_data += input;
-            return true;
-        }
+    if (post_data_length_counter_ < post_data_length_) {
+        post_data_length_counter_++;
+        req.post_data += input;
+        return boost::indeterminate;
     }
     else {
-        return false;
+        req.post_data += input;
+        return true;
     }
   case multipart_start:
     if (post_data_length_counter_ < post_data_length_) {
@@ -334,6 +328,7 @@ boost::tribool request_parser::consume(request& req, char input)
         return boost::indeterminate;
     }
     else {
+        req.post_data += input;
         return true;
     }
   default:
-- 
2.43.0

