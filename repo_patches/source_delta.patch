From 9b4ae2e9ee56393dfcfdbe0b145ab0c2ecf4f49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:21 +0000
Subject: [PATCH 01/63] fix: rewind a failed blank-crossing compound by
 characters, not UTF-16 units

---
 lttoolbox/fst_processor.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index 7024e83..fa11e1f 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -929,12 +929,14 @@ FSTProcessor::analysis(InputFile& input, UFILE *output)
           && last_size <= lastBlank(sf)) {
         int oldval = val;
         UString oldsf = sf;
+        unsigned int nread = 0; // in characters, not in UTF-16 code units
         do {
           alphabet.getSymbol(sf, val);
+          nread++;
         } while ((val = readAnalysis(input)) && isAlphabetic(val));
         lf_spcmp = compoundAnalysis(sf);
         if(lf_spcmp.empty()) {  // didn't work, rewind!
-          input_buffer.back(sf.size() - oldsf.size());
+          input_buffer.back(nread);
           val = oldval;
           sf.swap(oldsf);
         }
-- 
2.43.0


From e2216d7ca42cc284eb4bf8d2f0076db76604f54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:08 +0000
Subject: [PATCH 02/63] fix: postgeneration/transliteration could rewrite its
 own output forever

---
 lttoolbox/fst_processor.cc | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index fa11e1f..20f24fd 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -1514,7 +1514,8 @@ FSTProcessor::transliteration(InputFile& input, UFILE *output)
         std::vector<int32_t> word = transliteration_queue.front();
         transliteration_queue.pop_front();
         size_t i = 0;
-        for (; i < match.size() && i < match_pos - start_pos; i++) {
+        // never keep all of what was matched: every match has to consume input
+        for (; i < match.size() && i + 1 < match_pos - start_pos; i++) {
           if (match[match.size()-i-1] != word[match_pos-i-1]) {
             break;
           }
@@ -1533,9 +1534,7 @@ FSTProcessor::transliteration(InputFile& input, UFILE *output)
           if (c == static_cast<int32_t>(' ')) lf_spaces++;
         }
         space_diff += (lf_spaces - sf_spaces);
-        size_t last_start = start_pos;
-        start_pos = match_pos - i;
-        if (start_pos == last_start) start_pos++;
+        start_pos += match.size() - i; // position in new_word
         cur_pos = start_pos;
         cur_word = 0;
       }
-- 
2.43.0


From 83972ca7eee70bf513f0f5aabdde80e9a5e026c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:16 +0000
Subject: [PATCH 03/63] fix: lt-tmxproc lost text, blanks and numbers at the
 end of a block

---
 lttoolbox/fst_processor.cc | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index 20f24fd..8e708b6 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -1120,6 +1120,7 @@ FSTProcessor::tm_analysis(InputFile& input, UFILE *output, TranslationMemoryMode
   UString lf;     //lexical form
   UString sf;     //surface form
   int last = 0;
+  size_t last_size = 0; // size of sf at last match
 
   while(int32_t val = readTMAnalysis(input))
   {
@@ -1132,6 +1133,7 @@ FSTProcessor::tm_analysis(InputFile& input, UFILE *output, TranslationMemoryMode
                                           escaped_chars,
                                           blankqueue, numbers).substr(1);
         last = input_buffer.getPos();
+        last_size = sf.size();
         numbers.clear();
       }
     }
@@ -1199,8 +1201,8 @@ FSTProcessor::tm_analysis(InputFile& input, UFILE *output, TranslationMemoryMode
 
         if(val == 0)
         {
-          write(sf, output);
-          return;
+          lf.clear();
+          break;
         }
 
         input_buffer.back(1);
@@ -1257,6 +1259,26 @@ FSTProcessor::tm_analysis(InputFile& input, UFILE *output, TranslationMemoryMode
     }
   }
 
+  // end of the block: what was read but not matched is still text
+  if(!sf.empty())
+  {
+    if(lf.empty())
+    {
+      write(sf, output);
+    }
+    else
+    {
+      u_fprintf(output, "[%S]", lf.c_str());
+      write(UStringView(sf).substr(last_size), output);
+    }
+    // sf already includes its blanks
+    while(!blankqueue.empty())
+    {
+      blankqueue.pop();
+    }
+  }
+  numbers.clear();
+
   // print remaining blanks
   flushBlanks(output);
 }
-- 
2.43.0


From 7773c8ec28f7f4cc9345923780e7524c0138bac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:41 +0000
Subject: [PATCH 04/63] fix: analysis dropped text after a partial multiword at
 the end of a block

---
 lttoolbox/fst_processor.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index 8e708b6..46cfc16 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -1040,10 +1040,10 @@ FSTProcessor::analysis(InputFile& input, UFILE *output)
         input_buffer.setPos(last);
         input_buffer.back(1);
       }
-      if(val == 0) {
-        if(!input_buffer.isEmpty()) {
-          input_buffer.setPos(last+1);
-        }
+      if(val == 0 && !input_buffer.isEmpty()) {
+        // we went back, so the rest of the block is still to be analysed
+        // (the end of the block is in the buffer too, and is read again)
+        val = 1;
       }
 
       current_state = initial_state;
-- 
2.43.0


From b2aedec00c9e61a88634cbe95be2cbe684bb2259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:09 +0000
Subject: [PATCH 05/63] fix: an ignored character at the end of input became
 U+FFFF

---
 lttoolbox/fst_processor.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index 46cfc16..bd71363 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -185,6 +185,11 @@ FSTProcessor::readAnalysis(InputFile& input)
   }
 
   UChar32 val = input.get();
+  while ((useIgnoredChars || useDefaultIgnoredChars) && ignored_chars.find(val) != ignored_chars.end())
+  {
+    val = input.get();
+  }
+
   int32_t altval = 0;
   if(input.eof())
   {
@@ -194,11 +199,6 @@ FSTProcessor::readAnalysis(InputFile& input)
     val = 0;
   }
 
-  while ((useIgnoredChars || useDefaultIgnoredChars) && ignored_chars.find(val) != ignored_chars.end())
-  {
-    val = input.get();
-  }
-
   if(escaped_chars.find(val) != escaped_chars.end())
   {
     switch(val)
-- 
2.43.0


From f5a930551effa984327c372916b1defddb649dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:36 +0000
Subject: [PATCH 06/63] fix: lt-merge lost an unfinished merge at the end of
 input

---
 lttoolbox/fst_processor.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index bd71363..d5281e5 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -2076,7 +2076,7 @@ FSTProcessor::quoteMerge(InputFile& input, UFILE *output)
         u_fputc('$', output);
       }
     }
-    if(end_merging || reader.at_null) {
+    if(end_merging || reader.at_null || reader.at_eof) {
       if (merging) {
         u_fputc('^', output);
         write(surface, output);
-- 
2.43.0


From 9b187477165f46de97dacc39e4e5ae2c9ea8094f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:58 +0000
Subject: [PATCH 07/63] fix: refuse a truncated or unreadable compiled
 dictionary

Reading past the end of a compiled dictionary yielded zeros, so a truncated
file was loaded as a smaller or garbled transducer, or crashed. Throw instead
as soon as the end of the file or a read error is seen.
---
 lttoolbox/alphabet.cc    | 2 ++
 lttoolbox/compression.cc | 9 +++++++++
 lttoolbox/compression.h  | 8 ++++++++
 lttoolbox/file_utils.cc  | 5 +++++
 lttoolbox/trans_exe.cc   | 4 ++++
 lttoolbox/transducer.cc  | 4 ++++
 6 files changed, 32 insertions(+)

diff --git a/lttoolbox/alphabet.cc b/lttoolbox/alphabet.cc
index 0531005..88f9e01 100644
--- a/lttoolbox/alphabet.cc
+++ b/lttoolbox/alphabet.cc
@@ -166,6 +166,7 @@ Alphabet::read(FILE *input)
     UString mytag = "<"_u;
     mytag += Compression::string_read(input);
     mytag += ">"_u;
+    Compression::check_read(input);
     a_new.slexicinv.push_back(mytag);
     a_new.slexic[mytag]= -a_new.slexicinv.size(); // ToDo: This does not turn the result negative due to unsigned semantics
   }
@@ -178,6 +179,7 @@ Alphabet::read(FILE *input)
     tam--;
     int32_t first = Compression::multibyte_read(input);
     int32_t second = Compression::multibyte_read(input);
+    Compression::check_read(input);
     std::pair<int32_t, int32_t> tmp(first - bias, second - bias);
     int32_t spair_size = a_new.spair.size();
     a_new.spair[tmp] = spair_size;
diff --git a/lttoolbox/compression.cc b/lttoolbox/compression.cc
index 79970e6..98a1846 100644
--- a/lttoolbox/compression.cc
+++ b/lttoolbox/compression.cc
@@ -47,6 +47,15 @@ Compression::readByte(FILE *input)
   return value;
 }
 
+void
+Compression::check_read(FILE *input)
+{
+  if(feof(input) || ferror(input))
+  {
+    throw std::runtime_error("Unexpected end of file or I/O error while reading a compiled dictionary");
+  }
+}
+
 void
 Compression::multibyte_write(unsigned int value, FILE *output)
 {
diff --git a/lttoolbox/compression.h b/lttoolbox/compression.h
index a7aac62..89e249d 100644
--- a/lttoolbox/compression.h
+++ b/lttoolbox/compression.h
@@ -156,6 +156,14 @@ public:
    */
   static unsigned int multibyte_read(std::istream &is);
 
+  /**
+   * Throw std::runtime_error if an earlier read from the input stream
+   * hit the end of the file or an I/O error: the values read since then
+   * are not part of the data.
+   * @param input input stream.
+   */
+  static void check_read(FILE *input);
+
   /**
    * This method allows to write a plain string to an output stream
    * using its UCSencoding as integer.
diff --git a/lttoolbox/file_utils.cc b/lttoolbox/file_utils.cc
index 31608cc..6bf4463 100644
--- a/lttoolbox/file_utils.cc
+++ b/lttoolbox/file_utils.cc
@@ -113,6 +113,7 @@ readShared(FILE* input, std::set<UChar32>& letters, Alphabet& alpha)
 
   for (int len = Compression::multibyte_read(input); len > 0; len--) {
     letters.insert(static_cast<UChar32>(Compression::multibyte_read(input)));
+    Compression::check_read(input);
   }
 
   alpha.read(input);
@@ -127,8 +128,10 @@ readTransducerSet(FILE* input, std::set<UChar32>& letters,
 
   for (int len = Compression::multibyte_read(input); len > 0; len--) {
     UString name = Compression::string_read(input);
+    Compression::check_read(input);
     trans[name].read(input);
   }
+  Compression::check_read(input);
 }
 
 void
@@ -140,6 +143,8 @@ readTransducerSet(FILE* input, std::set<UChar32>& letters,
 
   for (int len = Compression::multibyte_read(input); len > 0; len--) {
     UString name = Compression::string_read(input);
+    Compression::check_read(input);
     trans[name].read(input, alpha);
   }
+  Compression::check_read(input);
 }
diff --git a/lttoolbox/trans_exe.cc b/lttoolbox/trans_exe.cc
index b733885..a29daf8 100644
--- a/lttoolbox/trans_exe.cc
+++ b/lttoolbox/trans_exe.cc
@@ -104,11 +104,13 @@ TransExe::read(FILE *input, Alphabet const &alphabet)
     {
       base_weight = Compression::long_multibyte_read(input);
     }
+    Compression::check_read(input);
     myfinals.insert({base, base_weight});
   }
 
 
   base = Compression::multibyte_read(input);
+  Compression::check_read(input);
 
   int number_of_states = base;
   int current_state = 0;
@@ -123,6 +125,7 @@ TransExe::read(FILE *input, Alphabet const &alphabet)
   while(number_of_states > 0)
   {
     int number_of_local_transitions = Compression::multibyte_read(input);
+    Compression::check_read(input);
     int tagbase = 0;
     Node &mynode = new_t.node_list[current_state];
 
@@ -135,6 +138,7 @@ TransExe::read(FILE *input, Alphabet const &alphabet)
       {
         base_weight = Compression::long_multibyte_read(input);
       }
+      Compression::check_read(input);
       int i_symbol = alphabet.decode(tagbase).first;
       int o_symbol = alphabet.decode(tagbase).second;
 
diff --git a/lttoolbox/transducer.cc b/lttoolbox/transducer.cc
index 20d5377..5054540 100644
--- a/lttoolbox/transducer.cc
+++ b/lttoolbox/transducer.cc
@@ -616,15 +616,18 @@ Transducer::read(FILE *input, int const decalage)
     {
       base_weight = Compression::long_multibyte_read(input);
     }
+    Compression::check_read(input);
     new_t.finals.insert({base, base_weight});
   }
 
   base = Compression::multibyte_read(input);
+  Compression::check_read(input);
   int number_of_states = base;
   int current_state = 0;
   while(number_of_states > 0)
   {
     int number_of_local_transitions = Compression::multibyte_read(input);
+    Compression::check_read(input);
     int tagbase = 0;
     if (new_t.transitions.find(current_state) == new_t.transitions.end()) {
       new_t.transitions[current_state].clear(); // force create
@@ -638,6 +641,7 @@ Transducer::read(FILE *input, int const decalage)
       {
         base_weight = Compression::long_multibyte_read(input);
       }
+      Compression::check_read(input);
       if(new_t.transitions.find(state) == new_t.transitions.end())
       {
         new_t.transitions[state].clear(); // force create
-- 
2.43.0


From ec3760cb2d1de9a927a87b168d4a5bba1fe33cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:12 +0000
Subject: [PATCH 08/63] fix: an unparsable or unreadable source file is an
 error

lt-comp, lt-expand and lt-tmxcomp reported a parse error at the end of the
input but went on and exited successfully with what they had; inside an
element, lt-expand and lt-tmxcomp ignored the error and could loop forever.
Parse errors in the ICX and RCX files of lt-proc and read errors in AT&T
files went unnoticed.
---
 lttoolbox/att_compiler.cc   |  6 ++++++
 lttoolbox/compiler.cc       |  6 ++----
 lttoolbox/expander.cc       | 19 ++++++++++---------
 lttoolbox/fst_processor.cc  |  8 ++++++++
 lttoolbox/tmx_compiler.cc   | 11 ++++++-----
 lttoolbox/xml_parse_util.cc |  8 ++++++++
 lttoolbox/xml_parse_util.h  |  1 +
 7 files changed, 41 insertions(+), 18 deletions(-)

diff --git a/lttoolbox/att_compiler.cc b/lttoolbox/att_compiler.cc
index 4c415c1..c589e6e 100644
--- a/lttoolbox/att_compiler.cc
+++ b/lttoolbox/att_compiler.cc
@@ -220,6 +220,12 @@ AttCompiler::parse(std::string const &file_name, bool read_rl)
       }
     } while (!u_feof(infile));
 
+    if (ferror(u_fgetfile(infile)))
+    {
+      std::cerr << "Error: unable to read '" << file_name << "'." << std::endl;
+      exit(EXIT_FAILURE);
+    }
+
     int from, to;
     UString upper, lower;
     double weight;
diff --git a/lttoolbox/compiler.cc b/lttoolbox/compiler.cc
index df49609..21b3c60 100644
--- a/lttoolbox/compiler.cc
+++ b/lttoolbox/compiler.cc
@@ -62,6 +62,7 @@ Compiler::parse(std::string const &file, UStringView dir)
   if(ret != 0)
   {
     std::cerr << "Error: Parse error at the end of input." << std::endl;
+    exit(EXIT_FAILURE);
   }
 
   xmlFreeTextReader(reader);
@@ -133,10 +134,7 @@ Compiler::valid(UStringView dir) const
 void
 Compiler::step(UString& name)
 {
-  int ret = xmlTextReaderRead(reader);
-  if (ret == -1) {
-    XMLParseUtil::error_and_die(reader, "Parse error.");
-  }
+  XMLParseUtil::read_or_die(reader);
   name = XMLParseUtil::readName(reader);
 }
 
diff --git a/lttoolbox/expander.cc b/lttoolbox/expander.cc
index 3ead68c..4bf0dc4 100644
--- a/lttoolbox/expander.cc
+++ b/lttoolbox/expander.cc
@@ -47,6 +47,7 @@ Expander::expand(std::string const &file, UFILE* output)
   if(ret != 0)
   {
     std::cerr << "Error: Parse error at the end of input." << std::endl;
+    exit(EXIT_FAILURE);
   }
 
   xmlFreeTextReader(reader);
@@ -167,7 +168,7 @@ Expander::skipBlanks(UString &name)
       std::cerr << "): Invalid construction." << std::endl;
       exit(EXIT_FAILURE);
     }
-    xmlTextReaderRead(reader);
+    XMLParseUtil::read_or_die(reader);
     name = XMLParseUtil::readName(reader);
   }
 }
@@ -175,7 +176,7 @@ Expander::skipBlanks(UString &name)
 void
 Expander::skip(UString &name, UStringView elem)
 {
-  xmlTextReaderRead(reader);
+  XMLParseUtil::read_or_die(reader);
   name = XMLParseUtil::readName(reader);
 
   if(name == Compiler::COMPILER_TEXT_NODE)
@@ -186,7 +187,7 @@ Expander::skip(UString &name, UStringView elem)
       std::cerr << "): Invalid construction." << std::endl;
       exit(EXIT_FAILURE);
     }
-    xmlTextReaderRead(reader);
+    XMLParseUtil::read_or_die(reader);
     name = XMLParseUtil::readName(reader);
   }
 
@@ -209,7 +210,7 @@ Expander::procIdentity()
 
     while(true)
     {
-      xmlTextReaderRead(reader);
+      XMLParseUtil::read_or_die(reader);
       name = XMLParseUtil::readName(reader);
       if(name == Compiler::COMPILER_IDENTITY_ELEM)
       {
@@ -234,7 +235,7 @@ Expander::procIdentityGroup()
 
     while(true)
     {
-      xmlTextReaderRead(reader);
+      XMLParseUtil::read_or_die(reader);
       name = XMLParseUtil::readName(reader);
       if(name == Compiler::COMPILER_IDENTITYGROUP_ELEM)
       {
@@ -263,7 +264,7 @@ Expander::procTransduction()
     name.clear();
     while(true)
     {
-      xmlTextReaderRead(reader);
+      XMLParseUtil::read_or_die(reader);
       name = XMLParseUtil::readName(reader);
       if(name == Compiler::COMPILER_LEFT_ELEM)
       {
@@ -280,7 +281,7 @@ Expander::procTransduction()
     name.clear();
     while(true)
     {
-      xmlTextReaderRead(reader);
+      XMLParseUtil::read_or_die(reader);
       name = XMLParseUtil::readName(reader);
       if(name == Compiler::COMPILER_RIGHT_ELEM)
       {
@@ -572,7 +573,7 @@ Expander::procNode(UFILE *output)
 UString
 Expander::procRegexp()
 {
-  xmlTextReaderRead(reader);
+  XMLParseUtil::read_or_die(reader);
   UString val = XMLParseUtil::readValue(reader);
   UString escaped = "^$/<>{}*@#+~:"_u;
   UString ret;
@@ -590,7 +591,7 @@ Expander::procRegexp()
     }
     ret += c;
   }
-  xmlTextReaderRead(reader);
+  XMLParseUtil::read_or_die(reader);
   return ret;
 }
 
diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index d5281e5..d9f0731 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -81,6 +81,10 @@ FSTProcessor::parseICX(std::string const &file)
       procNodeICX();
       ret = xmlTextReaderRead(reader);
     }
+    if(ret != 0)
+    {
+      XMLParseUtil::error_and_die(reader, "Parse error.");
+    }
     // No point trying to process ignored chars if there are none
     if(ignored_chars.size() == 0)
     {
@@ -106,6 +110,10 @@ FSTProcessor::parseRCX(std::string const &file)
       procNodeRCX();
       ret = xmlTextReaderRead(reader);
     }
+    if(ret != 0)
+    {
+      XMLParseUtil::error_and_die(reader, "Parse error.");
+    }
   }
 }
 
diff --git a/lttoolbox/tmx_compiler.cc b/lttoolbox/tmx_compiler.cc
index 8ea56cc..44f78e6 100644
--- a/lttoolbox/tmx_compiler.cc
+++ b/lttoolbox/tmx_compiler.cc
@@ -62,6 +62,7 @@ TMXCompiler::parse(std::string const &file, UStringView lo, UStringView lm)
   if(ret != 0)
   {
     std::cerr << "Error: Parse error at the end of input." << std::endl;
+    exit(EXIT_FAILURE);
   }
 
   xmlFreeTextReader(reader);
@@ -111,7 +112,7 @@ TMXCompiler::skipBlanks(UString &name)
       }
     }
 
-    xmlTextReaderRead(reader);
+    XMLParseUtil::read_or_die(reader);
     name = XMLParseUtil::readName(reader);
   }
 }
@@ -119,7 +120,7 @@ TMXCompiler::skipBlanks(UString &name)
 void
 TMXCompiler::skip(UString &name, UStringView elem)
 {
-  xmlTextReaderRead(reader);
+  XMLParseUtil::read_or_die(reader);
   name = XMLParseUtil::readName(reader);
 
   while(name == TMX_COMPILER_TEXT_NODE || name == TMX_COMPILER_COMMENT_NODE)
@@ -133,7 +134,7 @@ TMXCompiler::skip(UString &name, UStringView elem)
         exit(EXIT_FAILURE);
       }
     }
-    xmlTextReaderRead(reader);
+    XMLParseUtil::read_or_die(reader);
     name = XMLParseUtil::readName(reader);
   }
 
@@ -339,7 +340,7 @@ TMXCompiler::procTU()
 
       while(name != TMX_COMPILER_TUV_ELEM || type != XML_READER_TYPE_END_ELEMENT)
       {
-        xmlTextReaderRead(reader);
+        XMLParseUtil::read_or_die(reader);
         name = XMLParseUtil::readName(reader);
         type = xmlTextReaderNodeType(reader);
 
@@ -356,7 +357,7 @@ TMXCompiler::procTU()
         }
       }
     }
-    xmlTextReaderRead(reader);
+    XMLParseUtil::read_or_die(reader);
     name = XMLParseUtil::readName(reader);
     type = xmlTextReaderNodeType(reader);
   }
diff --git a/lttoolbox/xml_parse_util.cc b/lttoolbox/xml_parse_util.cc
index 001b52b..00796dd 100644
--- a/lttoolbox/xml_parse_util.cc
+++ b/lttoolbox/xml_parse_util.cc
@@ -102,6 +102,14 @@ XMLParseUtil::allBlanks(xmlTextReaderPtr reader)
   return true;
 }
 
+void
+XMLParseUtil::read_or_die(xmlTextReaderPtr reader)
+{
+  if (xmlTextReaderRead(reader) != 1) {
+    error_and_die(reader, "Parse error.");
+  }
+}
+
 void
 XMLParseUtil::error_and_die(xmlTextReaderPtr reader, const char* fmt, ...)
 {
diff --git a/lttoolbox/xml_parse_util.h b/lttoolbox/xml_parse_util.h
index 1859677..46b8bd0 100644
--- a/lttoolbox/xml_parse_util.h
+++ b/lttoolbox/xml_parse_util.h
@@ -42,6 +42,7 @@ public:
 
   static bool allBlanks(xmlTextReaderPtr reader);
 
+  static void read_or_die(xmlTextReaderPtr reader);
   static void error_and_die(xmlTextReaderPtr reader, const char* fmt, ...);
 };
 
-- 
2.43.0


From bcd593800406f4ef46dab6dc86411c087f52fefb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:11 +0000
Subject: [PATCH 09/63] fix: an error reading the input stream is not the end
 of input

A read error was taken for the end of the stream (or, as feof() stays
false, for an endless run of U+FFFF or NUL).
---
 lttoolbox/input_file.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lttoolbox/input_file.cc b/lttoolbox/input_file.cc
index f296927..886315e 100644
--- a/lttoolbox/input_file.cc
+++ b/lttoolbox/input_file.cc
@@ -94,6 +94,9 @@ InputFile::internal_read()
 
   int first = fgetc_unlocked(infile);
   if (first == EOF) {
+    if (ferror(infile)) {
+      throw std::runtime_error("I/O error reading from stream");
+    }
     ubuffer[buffer_size++] = U_EOF;
     return;
   } else if (first == '\0') {
-- 
2.43.0


From b78e218b265107437d70fa870c7cc47113be7ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:03 +0000
Subject: [PATCH 10/63] fix: report output that could not be written

No tool looked at the result of closing its output, so that what was lost
to a full disk or an I/O error went unnoticed: the exit status was 0.
---
 lttoolbox/file_utils.cc   | 29 +++++++++++++++++++++++------
 lttoolbox/file_utils.h    |  4 ++++
 lttoolbox/lt_append.cc    |  2 +-
 lttoolbox/lt_apply_acx.cc |  2 +-
 lttoolbox/lt_comp.cc      |  2 +-
 lttoolbox/lt_compose.cc   |  2 +-
 lttoolbox/lt_expand.cc    |  2 +-
 lttoolbox/lt_invert.cc    |  2 +-
 lttoolbox/lt_merge.cc     |  1 +
 lttoolbox/lt_paradigm.cc  |  2 +-
 lttoolbox/lt_print.cc     |  2 +-
 lttoolbox/lt_proc.cc      |  2 +-
 lttoolbox/lt_restrict.cc  |  2 +-
 lttoolbox/lt_tmxcomp.cc   |  3 ++-
 lttoolbox/lt_tmxproc.cc   |  2 +-
 lttoolbox/lt_trim.cc      |  2 +-
 16 files changed, 42 insertions(+), 19 deletions(-)

diff --git a/lttoolbox/file_utils.cc b/lttoolbox/file_utils.cc
index 6bf4463..953c324 100644
--- a/lttoolbox/file_utils.cc
+++ b/lttoolbox/file_utils.cc
@@ -26,12 +26,8 @@ openOutTextFile(const std::string& fname)
   if (fname.empty() || fname == "-") {
     return u_finit(stdout, NULL, NULL);
   } else {
-    UFILE* ret = u_fopen(fname.c_str(), "wb", NULL, NULL);
-    if (!ret) {
-      std::cerr << "Error: Cannot open file '" << fname << "' for writing." << std::endl;
-      exit(EXIT_FAILURE);
-    }
-    return ret;
+    // not u_fopen(), since u_fclose() would not report a failing fclose()
+    return u_finit(openOutBinFile(fname), NULL, NULL);
   }
 }
 
@@ -65,6 +61,27 @@ openInBinFile(const std::string& fname)
   }
 }
 
+void
+closeOutTextFile(UFILE* output)
+{
+  FILE* file = u_fgetfile(output);
+  u_fclose(output);
+  closeOutBinFile(file);
+}
+
+void
+closeOutBinFile(FILE* output)
+{
+  bool failed = ferror(output);
+  if (fclose(output) != 0) {
+    failed = true;
+  }
+  if (failed) {
+    std::cerr << "Error: I/O error writing the output." << std::endl;
+    exit(EXIT_FAILURE);
+  }
+}
+
 void
 writeTransducerSet(FILE* output, UStringView letters,
                    Alphabet& alpha,
diff --git a/lttoolbox/file_utils.h b/lttoolbox/file_utils.h
index 669e364..179f8bb 100644
--- a/lttoolbox/file_utils.h
+++ b/lttoolbox/file_utils.h
@@ -26,6 +26,10 @@
 UFILE* openOutTextFile(const std::string& fname);
 FILE* openOutBinFile(const std::string& fname);
 FILE* openInBinFile(const std::string& fname);
+/* flush and close an output file, exit with an error if anything written
+   to it could not be stored */
+void closeOutTextFile(UFILE* output);
+void closeOutBinFile(FILE* output);
 
 void writeTransducerSet(FILE* output, UStringView letters,
                         Alphabet& alpha,
diff --git a/lttoolbox/lt_append.cc b/lttoolbox/lt_append.cc
index a8358fb..950c023 100644
--- a/lttoolbox/lt_append.cc
+++ b/lttoolbox/lt_append.cc
@@ -67,7 +67,7 @@ int main(int argc, char *argv[])
 
   fclose(input1);
   fclose(input2);
-  fclose(output);
+  closeOutBinFile(output);
 
   return 0;
 }
diff --git a/lttoolbox/lt_apply_acx.cc b/lttoolbox/lt_apply_acx.cc
index fa5d079..e536c77 100644
--- a/lttoolbox/lt_apply_acx.cc
+++ b/lttoolbox/lt_apply_acx.cc
@@ -46,6 +46,6 @@ int main(int argc, char* argv[])
   writeTransducerSet(output, letters, alpha, trans);
 
   fclose(input);
-  fclose(output);
+  closeOutBinFile(output);
   return 0;
 }
diff --git a/lttoolbox/lt_comp.cc b/lttoolbox/lt_comp.cc
index 29a3bde..c894c50 100644
--- a/lttoolbox/lt_comp.cc
+++ b/lttoolbox/lt_comp.cc
@@ -177,5 +177,5 @@ int main(int argc, char *argv[])
   {
     c.write(output);
   }
-  fclose(output);
+  closeOutBinFile(output);
 }
diff --git a/lttoolbox/lt_compose.cc b/lttoolbox/lt_compose.cc
index 6ec365d..b44cd8a 100644
--- a/lttoolbox/lt_compose.cc
+++ b/lttoolbox/lt_compose.cc
@@ -124,7 +124,7 @@ int main(int argc, char *argv[])
 
   fclose(transducer1);
   fclose(transducer2);
-  fclose(composition);
+  closeOutBinFile(composition);
 
   return 0;
 }
diff --git a/lttoolbox/lt_expand.cc b/lttoolbox/lt_expand.cc
index c472b77..593dc50 100644
--- a/lttoolbox/lt_expand.cc
+++ b/lttoolbox/lt_expand.cc
@@ -52,7 +52,7 @@ int main(int argc, char *argv[])
   UFILE* output = openOutTextFile(cli.get_files()[1]);
 
   e.expand(cli.get_files()[0], output);
-  u_fclose(output);
+  closeOutTextFile(output);
 
   return EXIT_SUCCESS;
 }
diff --git a/lttoolbox/lt_invert.cc b/lttoolbox/lt_invert.cc
index bbe5584..e638d1d 100644
--- a/lttoolbox/lt_invert.cc
+++ b/lttoolbox/lt_invert.cc
@@ -44,6 +44,6 @@ int main(int argc, char* argv[])
   writeTransducerSet(output, alphabetic_chars, alphabet, transducers);
 
   fclose(input);
-  fclose(output);
+  closeOutBinFile(output);
   return EXIT_SUCCESS;
 }
diff --git a/lttoolbox/lt_merge.cc b/lttoolbox/lt_merge.cc
index d3939f7..ed028bf 100644
--- a/lttoolbox/lt_merge.cc
+++ b/lttoolbox/lt_merge.cc
@@ -50,5 +50,6 @@ int main(int argc, char *argv[])
     fstp.quoteMerge(input, output);
   }
 
+  closeOutTextFile(output);
   return 0;
 }
diff --git a/lttoolbox/lt_paradigm.cc b/lttoolbox/lt_paradigm.cc
index e0d5858..76e90b5 100644
--- a/lttoolbox/lt_paradigm.cc
+++ b/lttoolbox/lt_paradigm.cc
@@ -207,6 +207,6 @@ int main(int argc, char* argv[])
     }
   } while (!input.eof());
 
-  u_fclose(output);
+  closeOutTextFile(output);
   return 0;
 }
diff --git a/lttoolbox/lt_print.cc b/lttoolbox/lt_print.cc
index 6619530..2933fc7 100644
--- a/lttoolbox/lt_print.cc
+++ b/lttoolbox/lt_print.cc
@@ -65,7 +65,7 @@ int main(int argc, char *argv[])
   }
 
   fclose(input);
-  u_fclose(output);
+  closeOutTextFile(output);
 
   return 0;
 }
diff --git a/lttoolbox/lt_proc.cc b/lttoolbox/lt_proc.cc
index 38596a9..dcc12a5 100644
--- a/lttoolbox/lt_proc.cc
+++ b/lttoolbox/lt_proc.cc
@@ -242,6 +242,6 @@ int main(int argc, char *argv[])
     exit(1);
   }
 
-  u_fclose(output);
+  closeOutTextFile(output);
   return EXIT_SUCCESS;
 }
diff --git a/lttoolbox/lt_restrict.cc b/lttoolbox/lt_restrict.cc
index 0aef3b4..d0126cf 100644
--- a/lttoolbox/lt_restrict.cc
+++ b/lttoolbox/lt_restrict.cc
@@ -114,6 +114,6 @@ int main(int argc, char* argv[])
   writeTransducerSet(output, letters, alpha, trans);
 
   fclose(input);
-  fclose(output);
+  closeOutBinFile(output);
   return 0;
 }
diff --git a/lttoolbox/lt_tmxcomp.cc b/lttoolbox/lt_tmxcomp.cc
index 914f30a..af99bb1 100644
--- a/lttoolbox/lt_tmxcomp.cc
+++ b/lttoolbox/lt_tmxcomp.cc
@@ -15,6 +15,7 @@
  * along with this program; if not, see <https://www.gnu.org/licenses/>.
  */
 #include <lttoolbox/tmx_compiler.h>
+#include <lttoolbox/file_utils.h>
 #include <lttoolbox/lt_locale.h>
 #include <cstdlib>
 #include <iostream>
@@ -111,5 +112,5 @@ int main(int argc, char *argv[])
     exit(EXIT_FAILURE);
   }
   c.write(output);
-  fclose(output);
+  closeOutBinFile(output);
 }
diff --git a/lttoolbox/lt_tmxproc.cc b/lttoolbox/lt_tmxproc.cc
index 3746445..d0e6da8 100644
--- a/lttoolbox/lt_tmxproc.cc
+++ b/lttoolbox/lt_tmxproc.cc
@@ -50,6 +50,6 @@ int main(int argc, char *argv[])
 
   fstp.tm_analysis(input, output, tm_mode);
 
-  u_fclose(output);
+  closeOutTextFile(output);
   return EXIT_SUCCESS;
 }
diff --git a/lttoolbox/lt_trim.cc b/lttoolbox/lt_trim.cc
index 2a18584..e34d703 100644
--- a/lttoolbox/lt_trim.cc
+++ b/lttoolbox/lt_trim.cc
@@ -125,7 +125,7 @@ int main(int argc, char *argv[])
 
   fclose(analyser);
   fclose(bidix);
-  fclose(output);
+  closeOutBinFile(output);
 
   return 0;
 }
-- 
2.43.0


From 83131c733166a51bbc13767cdcb51a5b2a24aef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:31 +0000
Subject: [PATCH 11/63] fix: keep alphabetic characters outside the BMP

Every tool that rewrites a dictionary, and the AT&T compiler, cut the
alphabetic characters down to 16 bits; so did lt-print -a.
---
 lttoolbox/att_compiler.cc | 3 +--
 lttoolbox/att_compiler.h  | 2 +-
 lttoolbox/file_utils.cc   | 6 +++++-
 lttoolbox/lt_append.cc    | 3 +--
 lttoolbox/lt_print.cc     | 3 ++-
 5 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/lttoolbox/att_compiler.cc b/lttoolbox/att_compiler.cc
index c589e6e..e8f587f 100644
--- a/lttoolbox/att_compiler.cc
+++ b/lttoolbox/att_compiler.cc
@@ -537,8 +537,7 @@ AttCompiler::write(FILE *output)
   } else {
     temp["main@standard"_u] = extract_transducer(UNDECIDED);
   }
-  writeTransducerSet(output, UString(letters.begin(), letters.end()),
-                     alphabet, temp);
+  writeTransducerSet(output, letters, alphabet, temp);
 }
 
 void
diff --git a/lttoolbox/att_compiler.h b/lttoolbox/att_compiler.h
index 4d4af15..533ddb6 100644
--- a/lttoolbox/att_compiler.h
+++ b/lttoolbox/att_compiler.h
@@ -108,7 +108,7 @@ private:
 
   Alphabet alphabet;
   /** All non-multicharacter symbols. */
-  std::set<UChar> letters;
+  std::set<UChar32> letters;
 
   /** Used in AttNode. */
   struct Transduction
diff --git a/lttoolbox/file_utils.cc b/lttoolbox/file_utils.cc
index 953c324..d052700 100644
--- a/lttoolbox/file_utils.cc
+++ b/lttoolbox/file_utils.cc
@@ -107,7 +107,11 @@ writeTransducerSet(FILE* output, const std::set<UChar32>& letters,
                    Alphabet& alpha,
                    std::map<UString, Transducer>& trans)
 {
-  writeTransducerSet(output, UString(letters.begin(), letters.end()), alpha, trans);
+  UString chars;
+  for (auto& it : letters) {
+    chars += it;
+  }
+  writeTransducerSet(output, chars, alpha, trans);
 }
 
 void
diff --git a/lttoolbox/lt_append.cc b/lttoolbox/lt_append.cc
index 950c023..d6db74c 100644
--- a/lttoolbox/lt_append.cc
+++ b/lttoolbox/lt_append.cc
@@ -49,7 +49,6 @@ int main(int argc, char *argv[])
   for (auto& it : chars2) {
     chars1.insert(it);
   }
-  UString chars(chars1.begin(), chars1.end());
 
   for (auto& it : trans2) {
     if (trans1.find(it.first) != trans1.end()) {
@@ -63,7 +62,7 @@ int main(int argc, char *argv[])
     trans1[it.first] = it.second;
   }
 
-  writeTransducerSet(output, chars, alpha1, trans1);
+  writeTransducerSet(output, chars1, alpha1, trans1);
 
   fclose(input1);
   fclose(input2);
diff --git a/lttoolbox/lt_print.cc b/lttoolbox/lt_print.cc
index 2933fc7..a058bd6 100644
--- a/lttoolbox/lt_print.cc
+++ b/lttoolbox/lt_print.cc
@@ -46,7 +46,8 @@ int main(int argc, char *argv[])
 
   if (alpha) {
     for (auto& it : alphabetic_chars) {
-      u_fprintf(output, "%C\n", it);
+      u_fputc(it, output);
+      u_fprintf(output, "\n");
     }
     for (int i = 1; i <= alphabet.size(); i++) {
       alphabet.writeSymbol(-i, output);
-- 
2.43.0


From c43b6f55099e5c9993c9f7fe831b59baf255457f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:37 +0000
Subject: [PATCH 12/63] fix: do not free an analysis state twice when memory
 runs out

State released the sequences of its old nodes before the new ones were
complete, so unwinding after a failed allocation deleted them again.
---
 lttoolbox/state.cc | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/lttoolbox/state.cc b/lttoolbox/state.cc
index 64ac197..14ef004 100644
--- a/lttoolbox/state.cc
+++ b/lttoolbox/state.cc
@@ -94,13 +94,15 @@ State::copy(State const &s)
     delete it;
   }
 
-  state = s.state;
+  state.clear();
+  sequence_pool.clear();
+  state.reserve(s.state.size());
 
-  for(size_t i = 0, limit = state.size(); i != limit; i++)
+  for(auto& it : s.state)
   {
     auto tmp = new_sequence();
-    *tmp = *(state[i].sequence);
-    state[i].sequence = tmp;
+    *tmp = *(it.sequence);
+    state.push_back(TNodeState(it.where, tmp, it.dirty));
   }
 }
 
@@ -184,6 +186,7 @@ State::apply(int const input)
   {
     apply_into(&new_state, input, i, false);
     free_sequence(state[i].sequence);
+    state[i].sequence = nullptr;
   }
 
   state = new_state;
@@ -204,6 +207,7 @@ State::apply_override(int const input, int const old_sym, int const new_sym)
     apply_into_override(&new_state, input, old_sym, new_sym, i, false);
     apply_into_override(&new_state, old_sym, old_sym, new_sym, i, true);
     free_sequence(state[i].sequence);
+    state[i].sequence = nullptr;
   }
 
   state = new_state;
@@ -231,6 +235,7 @@ State::apply_override(int const input, int const alt, int const old_sym, int con
     apply_into_override(&new_state, alt, old_sym, new_sym, i, true);
     apply_into_override(&new_state, old_sym, old_sym, new_sym, i, true);
     free_sequence(state[i].sequence);
+    state[i].sequence = nullptr;
   }
 
   state = new_state;
@@ -257,6 +262,7 @@ State::apply(int const input, int const alt)
     apply_into(&new_state, input, i, false);
     apply_into(&new_state, alt, i, true);
     free_sequence(state[i].sequence);
+    state[i].sequence = nullptr;
   }
 
   state = new_state;
@@ -279,6 +285,7 @@ State::apply_careful(int const input, int const alt)
       apply_into(&new_state, alt, i, true);
     }
     free_sequence(state[i].sequence);
+    state[i].sequence = nullptr;
   }
 
   state = new_state;
@@ -333,6 +340,7 @@ State::apply(int const input, int const alt1, int const alt2)
     apply_into(&new_state, alt1, i, true);
     apply_into(&new_state, alt2, i, true);
     free_sequence(state[i].sequence);
+    state[i].sequence = nullptr;
   }
 
   state = new_state;
@@ -366,6 +374,7 @@ State::apply(int const input, std::set<int> const alts)
     }
 
     free_sequence(state[i].sequence);
+    state[i].sequence = nullptr;
   }
 
   state = new_state;
-- 
2.43.0


From 96812f39c5972d5dbb84b5072fd0590065125e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:50 +0000
Subject: [PATCH 13/63] fix: restore every symbol pair and 16-bit unit when
 deserialising an Alphabet

The pair index was rebuilt for as many pairs as there are symbols, reading
past the end of the pair list or leaving pairs out, and UChar values were
returned as char.
---
 lttoolbox/alphabet.cc    | 2 +-
 lttoolbox/deserialiser.h | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/lttoolbox/alphabet.cc b/lttoolbox/alphabet.cc
index 88f9e01..0fa711d 100644
--- a/lttoolbox/alphabet.cc
+++ b/lttoolbox/alphabet.cc
@@ -208,7 +208,7 @@ Alphabet::deserialise(std::istream &serialised)
     slexic[slexicinv[i]] = -i - 1; // ToDo: This does not turn the result negative due to unsigned semantics
   }
   spairinv = Deserialiser<std::vector<std::pair<int32_t, int32_t> > >::deserialise(serialised);
-  for (size_t i = 0; i < slexicinv.size(); i++) {
+  for (size_t i = 0; i < spairinv.size(); i++) {
     spair[spairinv[i]] = i;
   }
 }
diff --git a/lttoolbox/deserialiser.h b/lttoolbox/deserialiser.h
index 9062930..0d0a899 100644
--- a/lttoolbox/deserialiser.h
+++ b/lttoolbox/deserialiser.h
@@ -85,7 +85,7 @@ public:
 
 template <> class Deserialiser<UChar> {
 public:
-  inline static char deserialise(std::istream &Stream_);
+  inline static UChar deserialise(std::istream &Stream_);
 };
 
 template<> class Deserialiser<double> {
@@ -174,7 +174,7 @@ char Deserialiser<char>::deserialise(std::istream &Stream_) {
   return int_deserialise<uint8_t>(Stream_);
 }
 
-char Deserialiser<UChar>::deserialise(std::istream &Stream_) {
+UChar Deserialiser<UChar>::deserialise(std::istream &Stream_) {
   return int_deserialise<uint16_t>(Stream_);
 }
 
-- 
2.43.0


From ebc275936d90edb58f7bb035e5bc89e51026de39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:09:40 +0000
Subject: [PATCH 14/63] fix: postgeneration took the character after an empty
 wordblank unit for the end of the block

A unit such as [[t:b:x]][[/]], which lt-proc itself writes when an entry
deletes a word, made the next character bypass the stream parser: the
bracket of a following blank was lost and its end came out escaped.
---
 lttoolbox/fst_processor.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index d9f0731..8b2dc3f 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -408,7 +408,7 @@ FSTProcessor::readTransliterationWord(InputFile& input)
       }
     }
   }
-  if (word.empty()) {
+  if (word.empty() && wblank.empty()) {
     return false;
   }
   wblankqueue.push_back(wblank);
-- 
2.43.0


From 40469d72eaf5cdaa3e36f2416c89cea5206b92a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:47 +0000
Subject: [PATCH 15/63] fix: lt-compose with LT_JOBS shared one mutable
 alphabet between threads

---
 lttoolbox/lt_compose.cc | 51 +++++++++++++++--------------------------
 1 file changed, 19 insertions(+), 32 deletions(-)

diff --git a/lttoolbox/lt_compose.cc b/lttoolbox/lt_compose.cc
index b44cd8a..8da26e1 100644
--- a/lttoolbox/lt_compose.cc
+++ b/lttoolbox/lt_compose.cc
@@ -46,47 +46,34 @@ compose(FILE* file_f, FILE* file_g, FILE* file_gf, bool f_inverted, bool g_anywh
   }
   union_g.minimize();
 
-  std::vector<std::future<std::pair<UString, Transducer>>> compositions;
   for (auto& it : trans_f) {
     if (it.second.numberOfTransitions() == 0) {
       std::cerr << "Warning: section " << it.first << " is empty! Skipping it..." << std::endl;
       continue;
     }
-    if(jobs) {
-      compositions.push_back(std::async(
-          [](Transducer &f, Transducer &g, Alphabet &alph_f, Alphabet &alph_g,
-             bool f_inverted, bool g_anywhere, UString name) {
-            Transducer gf = f.compose(g, alph_f, alph_g, f_inverted, g_anywhere);
-            if (gf.hasNoFinals()) {
-              std::cerr << "Warning: section " << name
-                        << " had no final state after composing! Skipping it..."
-                        << std::endl;
-              ;
-            } else {
-              gf.minimize();
-            }
-            return std::make_pair(name, gf);
-          },
-          std::ref(it.second), std::ref(union_g), std::ref(alph_f),
-          std::ref(alph_g), f_inverted, g_anywhere, it.first));
-    } else {
-      Transducer gf = it.second.compose(union_g, alph_f, alph_g, f_inverted, g_anywhere);
-      if (gf.hasNoFinals()) {
-        std::cerr << "Warning: section " << it.first
-                  << " had no final state after composing! Skipping it..."
-                  << std::endl;
-        continue;
-      }
-      gf.minimize();
-      trans_gf[it.first] = gf;
+    // compose() adds symbols to alph_f, so only minimisation may run in parallel
+    Transducer gf = it.second.compose(union_g, alph_f, alph_g, f_inverted, g_anywhere);
+    if (gf.hasNoFinals()) {
+      std::cerr << "Warning: section " << it.first
+                << " had no final state after composing! Skipping it..."
+                << std::endl;
+      continue;
     }
+    trans_gf[it.first] = gf;
   }
-  for (auto &thr : compositions) {
-    auto it = thr.get();
-    if (!it.second.hasNoFinals()) {
-      trans_gf[it.first] = it.second;
+
+  std::vector<std::future<void>> minimisations;
+  for (auto& it : trans_gf) {
+    if (jobs) {
+      minimisations.push_back(std::async(
+          [](Transducer &t) { t.minimize(); }, std::ref(it.second)));
+    } else {
+      it.second.minimize();
     }
   }
+  for (auto &thr : minimisations) {
+    thr.get();
+  }
 
   if (trans_gf.empty()) {
     std::cerr << "Error: Composition gave empty transducer!" << std::endl;
-- 
2.43.0


From 3029760fc3598681c781743b41707364b6fdb533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:32 +0000
Subject: [PATCH 16/63] fix: characters outside the BMP were taken for symbols
 in word lookups

---
 lttoolbox/alphabet.cc      |  4 ++--
 lttoolbox/fst_processor.cc | 10 +++++-----
 lttoolbox/lt_paradigm.cc   |  2 +-
 lttoolbox/symbol_iter.h    | 10 ++++++++++
 4 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/lttoolbox/alphabet.cc b/lttoolbox/alphabet.cc
index 0fa711d..c721fc4 100644
--- a/lttoolbox/alphabet.cc
+++ b/lttoolbox/alphabet.cc
@@ -315,8 +315,8 @@ Alphabet::tokenize(UStringView str) const
 {
   std::vector<int32_t> ret;
   for (auto sym : symbol_iter(str)) {
-    if (sym.size() > 1) ret.push_back(operator()(sym));
-    else ret.push_back(static_cast<int32_t>(sym[0]));
+    if (symbol_iter::is_tag(sym)) ret.push_back(operator()(sym));
+    else ret.push_back(symbol_iter::to_char(sym));
   }
   return ret;
 }
diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index 8b2dc3f..a5f63a4 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -1633,7 +1633,7 @@ FSTProcessor::step_biltrans(UStringView word, std::vector<UString>& result, UStr
   bool firstupper = u_isupper(word[0]);
   bool uppercase = firstupper && u_isupper(word[1]);
   for (auto symbol : symbol_iter(word)) {
-    int32_t val = (symbol.size() == 1 ? symbol[0] : alphabet(symbol));
+    int32_t val = (symbol_iter::is_tag(symbol) ? alphabet(symbol) : symbol_iter::to_char(symbol));
     if (current_state.size() != 0) {
       current_state.step(val, beCaseSensitive(current_state));
     }
@@ -1927,11 +1927,11 @@ FSTProcessor::biltransWithQueue(UStringView input_word, bool with_delim)
   UStringView word = input_word.substr(start_point, end_point-start_point);
   for (auto symbol : symbol_iter(word)) {
     int32_t val;
-    if (symbol.size() == 1) {
-      val = symbol[0];
-    } else {
+    if (symbol_iter::is_tag(symbol)) {
       val = alphabet(symbol);
       seentags = true;
+    } else {
+      val = symbol_iter::to_char(symbol);
     }
     if(current_state.size() != 0)
     {
@@ -2522,7 +2522,7 @@ FSTProcessor::lookup(UStringView word, std::vector<UString>& result)
   bool firstupper = u_isupper(word[0]);
   bool uppercase = firstupper && u_isupper(word[1]);
   for (auto symbol : symbol_iter(word)) {
-    int32_t val = (symbol.size() == 1 ? symbol[0] : alphabet(symbol));
+    int32_t val = (symbol_iter::is_tag(symbol) ? alphabet(symbol) : symbol_iter::to_char(symbol));
     if (current_state.size() != 0) {
       current_state.step(val, beCaseSensitive(current_state));
     }
diff --git a/lttoolbox/lt_paradigm.cc b/lttoolbox/lt_paradigm.cc
index 76e90b5..3773602 100644
--- a/lttoolbox/lt_paradigm.cc
+++ b/lttoolbox/lt_paradigm.cc
@@ -83,7 +83,7 @@ void process(UStringView pattern, std::map<UString, Transducer>& trans,
   Transducer other;
   int state = other.getInitial();
   for (auto sym : symbol_iter(pattern)) {
-    int32_t it = (sym.size() == 1 ? sym[0] : alpha(sym));
+    int32_t it = (symbol_iter::is_tag(sym) ? alpha(sym) : symbol_iter::to_char(sym));
     if (it == any_char) {
       state = other.insertNewSingleTransduction(0, state);
       for (auto& sym : letters) {
diff --git a/lttoolbox/symbol_iter.h b/lttoolbox/symbol_iter.h
index 494963f..fceee72 100644
--- a/lttoolbox/symbol_iter.h
+++ b/lttoolbox/symbol_iter.h
@@ -2,6 +2,7 @@
 #define __LT_SYMBOL_ITER_H__
 
 #include <ustring.h>
+#include <unicode/utf16.h>
 
 class symbol_iter
 {
@@ -28,6 +29,15 @@ public:
   };
   iterator begin() const;
   iterator end() const;
+  // true if a symbol produced by the iterator is a tag rather than a character
+  static bool is_tag(UStringView sym) { return sym.size() > 1 && sym[0] == '<'; }
+  // code point of a symbol that is a character
+  static UChar32 to_char(UStringView sym)
+  {
+    UChar32 c;
+    U16_GET(sym.data(), 0, 0, sym.size(), c);
+    return c;
+  }
 };
 
 #endif
-- 
2.43.0


From 4b58d21596ec7f47feb488470c88335c2effcda1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:32 +0000
Subject: [PATCH 17/63] fix: library word lookups dropped the last character
 and never folded case

---
 lttoolbox/fst_processor.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index a5f63a4..0cc3cab 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -1635,7 +1635,7 @@ FSTProcessor::step_biltrans(UStringView word, std::vector<UString>& result, UStr
   for (auto symbol : symbol_iter(word)) {
     int32_t val = (symbol_iter::is_tag(symbol) ? alphabet(symbol) : symbol_iter::to_char(symbol));
     if (current_state.size() != 0) {
-      current_state.step(val, beCaseSensitive(current_state));
+      current_state.step_case(val, beCaseSensitive(current_state));
     }
     if (current_state.isFinal(all_finals)) {
       current_state.filterFinalsArray(result,
@@ -1678,7 +1678,7 @@ FSTProcessor::biltransfull(UStringView input_word, bool with_delim)
     mark = true;
   }
 
-  auto word = input_word.substr(start_point, end_point-start_point);
+  auto word = input_word.substr(start_point, end_point+1-start_point);
   bool exists = step_biltrans(word, result, queue);
   if (!exists) {
     if (with_delim) return "^@"_u + US(input_word.substr(1));
@@ -1723,7 +1723,7 @@ FSTProcessor::biltrans(UStringView input_word, bool with_delim)
     mark = true;
   }
 
-  UStringView word = input_word.substr(start_point, end_point-start_point);
+  UStringView word = input_word.substr(start_point, end_point+1-start_point);
   bool exists = step_biltrans(word, result, queue);
   if (!exists) {
     if (with_delim) return "^@"_u + US(input_word.substr(1));
@@ -1924,7 +1924,7 @@ FSTProcessor::biltransWithQueue(UStringView input_word, bool with_delim)
   bool firstupper = u_isupper(input_word[start_point]);
   bool uppercase = firstupper && u_isupper(input_word[start_point+1]);
 
-  UStringView word = input_word.substr(start_point, end_point-start_point);
+  UStringView word = input_word.substr(start_point, end_point+1-start_point);
   for (auto symbol : symbol_iter(word)) {
     int32_t val;
     if (symbol_iter::is_tag(symbol)) {
@@ -2014,7 +2014,7 @@ FSTProcessor::biltransWithoutQueue(UStringView input_word, bool with_delim)
     mark = true;
   }
 
-  auto word = input_word.substr(start_point, end_point-start_point);
+  auto word = input_word.substr(start_point, end_point+1-start_point);
   UString queue;
   bool exists = step_biltrans(word, result, queue);
   if (!exists || !queue.empty()) {
@@ -2524,7 +2524,7 @@ FSTProcessor::lookup(UStringView word, std::vector<UString>& result)
   for (auto symbol : symbol_iter(word)) {
     int32_t val = (symbol_iter::is_tag(symbol) ? alphabet(symbol) : symbol_iter::to_char(symbol));
     if (current_state.size() != 0) {
-      current_state.step(val, beCaseSensitive(current_state));
+      current_state.step_case(val, beCaseSensitive(current_state));
     }
   }
   current_state.filterFinalsArray(result,
-- 
2.43.0


From 1922ff0885bb84a7ce874f49ea2139bf24e43a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:10 +0000
Subject: [PATCH 18/63] fix: count weight classes by distinct weights

---
 lttoolbox/state.cc | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/lttoolbox/state.cc b/lttoolbox/state.cc
index 14ef004..e6ca77e 100644
--- a/lttoolbox/state.cc
+++ b/lttoolbox/state.cc
@@ -501,15 +501,14 @@ State::NFinals(std::vector<std::pair<UString, double>> lf, int maxAnalyses, int
 
   for(auto it = lf.begin(); it != lf.end(); it++)
   {
-    double last_weight = 0.0000;
-    if(maxAnalyses > 0 && maxWeightClasses > 0)
+    if(it == lf.begin() || it->second != std::prev(it)->second)
+    {
+      maxWeightClasses--;
+    }
+    if(maxAnalyses > 0 && maxWeightClasses >= 0)
     {
       result.push_back({it->first, it->second});
       maxAnalyses--;
-      if(last_weight!=it->second)
-      {
-        maxWeightClasses--;
-      }
     }
     else break;
   }
-- 
2.43.0


From 13057f58802649a0413d32ff2b2d4f640477323c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:35 +0000
Subject: [PATCH 19/63] fix: weights of 10000 and more overflowed the buffer
 they are printed to

---
 lttoolbox/state.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/lttoolbox/state.cc b/lttoolbox/state.cc
index e6ca77e..2595830 100644
--- a/lttoolbox/state.cc
+++ b/lttoolbox/state.cc
@@ -554,9 +554,8 @@ State::filterFinalsArray(std::vector<UString>& result,
     if (!seen.insert(it.first).second) continue;
     result.push_back(it.first);
     if (display_weights) {
-      UChar w[16]{};
-      // if anyone wants a weight of 10000, this will not be enough
-      u_sprintf(w, "<W:%f>", it.second);
+      UChar w[352]{}; // enough for the longest double
+      u_snprintf(w, 352, "<W:%f>", it.second);
       result.back() += w;
     }
   }
-- 
2.43.0


From ea6d4b4abcb6c61a4d430fc3b8dff49ab5040afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:12 +0000
Subject: [PATCH 20/63] fix: lt-proc -c analysed unknown words in lower case

---
 lttoolbox/fst_processor.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index 0cc3cab..b2d810d 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -732,6 +732,9 @@ FSTProcessor::compoundAnalysisOrLowering(UString input_cased) {
       return compound;
     }
   }
+  if (caseSensitive) {
+    return ""_u;
+  }
   // If we failed due to state explosion, we may try again with the lowercased string:
   UString input_lowered = StringUtils::tolower(input_cased);
   State current_state = initial_state;
-- 
2.43.0


From 71cbcd71297e78393097c6012d8cc992a68c0d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:09 +0000
Subject: [PATCH 21/63] fix: generation doubled the escapes of words it does
 not know

---
 lttoolbox/fst_processor.cc | 48 ++++++++++++++++++++++++++++++--------
 lttoolbox/fst_processor.h  |  8 +++++++
 2 files changed, 46 insertions(+), 10 deletions(-)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index b2d810d..eb79ee4 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -518,12 +518,36 @@ FSTProcessor::writeEscapedPopBlanks(UStringView str, UFILE *output)
   return postpop;
 }
 
+void
+FSTProcessor::writeEscapedContent(UStringView str, UFILE *output)
+{
+  for(unsigned int i = 0, limit = str.size(); i < limit; i++)
+  {
+    if(str[i] == '\\' && i + 1 < limit)
+    {
+      u_fputc(str[i++], output); // already escaped in the input
+    }
+    else if(escaped_chars.find(str[i]) != escaped_chars.end())
+    {
+      u_fputc('\\', output);
+    }
+    u_fputc(str[i], output);
+  }
+}
+
 void
 FSTProcessor::writeEscapedWithTags(UStringView str, UFILE *output)
 {
   for(unsigned int i = 0, limit = str.size(); i < limit; i++)
   {
-    if(str[i] == '<' && i >=1 && str[i-1] != '\\')
+    if(str[i] == '\\' && i + 1 < limit)
+    {
+      u_fputc(str[i++], output); // already escaped in the input
+      u_fputc(str[i], output);
+      continue;
+    }
+
+    if(str[i] == '<' && i >=1)
     {
       write(str.substr(i), output);
       return;
@@ -1318,14 +1342,14 @@ FSTProcessor::generation(InputFile& input, UFILE *output, GenerationMode mode)
         skip = true;
         if (mode == gm_tagged_nm) {
           u_fputc('^', output);
-          writeEscaped(removeTags(rd.content), output);
+          writeEscapedContent(removeTags(rd.content), output);
           u_fputc('/', output);
           u_fputc(rd.mark, output);
           writeEscapedWithTags(rd.content, output);
           u_fputc('$', output);
         } else {
           if (mode != gm_clean) u_fputc(rd.mark, output);
-          writeEscaped(rd.content, output);
+          writeEscapedContent(rd.content, output);
         }
         break;
       case '@':
@@ -1333,7 +1357,7 @@ FSTProcessor::generation(InputFile& input, UFILE *output, GenerationMode mode)
         switch (mode) {
         case gm_all:
           u_fputc(rd.mark, output);
-          writeEscaped(rd.content, output);
+          writeEscapedContent(rd.content, output);
           break;
         case gm_unknown:
         case gm_tagged:
@@ -1341,11 +1365,11 @@ FSTProcessor::generation(InputFile& input, UFILE *output, GenerationMode mode)
           [[fallthrough]];
         case gm_bilgen:
         case gm_clean:
-          writeEscaped(removeTags(rd.content), output);
+          writeEscapedContent(removeTags(rd.content), output);
           break;
         case gm_tagged_nm:
           u_fputc('^', output);
-          writeEscaped(removeTags(rd.content), output);
+          writeEscapedContent(removeTags(rd.content), output);
           u_fputc('/', output);
           u_fputc(rd.mark, output);
           writeEscapedWithTags(rd.content, output);
@@ -1394,7 +1418,7 @@ FSTProcessor::generation(InputFile& input, UFILE *output, GenerationMode mode)
           switch (mode) {
           case gm_all:
             u_fputc('#', output);
-            writeEscaped(rd.content, output);
+            writeEscapedContent(rd.content, output);
             break;
           case gm_carefulcase:
           case gm_unknown:
@@ -1403,11 +1427,11 @@ FSTProcessor::generation(InputFile& input, UFILE *output, GenerationMode mode)
             [[fallthrough]];
           case gm_bilgen:
           case gm_clean:
-            writeEscaped(removeTags(rd.content), output);
+            writeEscapedContent(removeTags(rd.content), output);
             break;
           case gm_tagged_nm:
             u_fputc('^', output);
-            writeEscaped(removeTags(rd.content), output);
+            writeEscapedContent(removeTags(rd.content), output);
             u_fputc('/', output);
             u_fputc('#', output);
             writeEscapedWithTags(rd.content, output);
@@ -2404,7 +2428,11 @@ FSTProcessor::removeTags(UStringView str)
 {
   for(unsigned int i = 0; i < str.size(); i++)
   {
-    if(str[i] == '<' && i >=1 && str[i-1] != '\\')
+    if(str[i] == '\\')
+    {
+      i++; // the next character is escaped
+    }
+    else if(str[i] == '<' && i >=1)
     {
       return str.substr(0, i);
     }
diff --git a/lttoolbox/fst_processor.h b/lttoolbox/fst_processor.h
index c0a1c42..5e41d33 100644
--- a/lttoolbox/fst_processor.h
+++ b/lttoolbox/fst_processor.h
@@ -336,6 +336,14 @@ private:
    */
   void writeEscaped(UStringView str, UFILE *output);
 
+  /**
+   * Write the content of a lexical unit read from the stream, escaping
+   * what is not already escaped in it
+   * @param str the content, possibly with escapes
+   * @param output the stream to write in
+   */
+  void writeEscapedContent(UStringView str, UFILE *output);
+
   /**
    * Write a string to an output stream.
    * If we print a space, we may pop a space from blankqueue
-- 
2.43.0


From 190cd103701a1c5ee6198d8a7f8aa2639bd7c345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:38 +0000
Subject: [PATCH 22/63] fix: lt-proc -C dropped lexical units marked with @

---
 lttoolbox/fst_processor.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index eb79ee4..8350700 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -1359,6 +1359,7 @@ FSTProcessor::generation(InputFile& input, UFILE *output, GenerationMode mode)
           u_fputc(rd.mark, output);
           writeEscapedContent(rd.content, output);
           break;
+        case gm_carefulcase:
         case gm_unknown:
         case gm_tagged:
           u_fputc(rd.mark, output);
-- 
2.43.0


From c72df04d03cb7910b95e624c7544000953c2996f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:38 +0000
Subject: [PATCH 23/63] fix: analysis cut a non-alphabetic character outside
 the BMP in two

---
 lttoolbox/fst_processor.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index 8350700..5cc569e 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -1028,7 +1028,7 @@ FSTProcessor::analysis(InputFile& input, UFILE *output)
         if(limit.i_codepoint == 0)
         {
           input_buffer.setPos(1 + last_start);
-          writeEscaped(sf.substr(0,1), output);
+          writeEscaped(sf.substr(0, U16_IS_LEAD(sf[0]) ? 2 : 1), output);
         }
         else
         {
@@ -1051,7 +1051,7 @@ FSTProcessor::analysis(InputFile& input, UFILE *output)
         if(limit.i_codepoint == 0)
         {
           input_buffer.setPos(1 + last_start);
-          writeEscaped(sf.substr(0,1), output);
+          writeEscaped(sf.substr(0, U16_IS_LEAD(sf[0]) ? 2 : 1), output);
         }
         else
         {
-- 
2.43.0


From 5549d45cc997bbf6a6355ca290237fdf9588c597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:08 +0000
Subject: [PATCH 24/63] fix: restoring characters folded case for ASCII only

---
 lttoolbox/fst_processor.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index 5cc569e..c3ce032 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -930,14 +930,14 @@ FSTProcessor::analysis(InputFile& input, UFILE *output)
       }
       else if(rcx_map.find(u_tolower(val)) != rcx_map.end())
       {
-        rcx_map_ptr = rcx_map.find(tolower(val));
-        tmpset.insert(tolower(val));
+        rcx_map_ptr = rcx_map.find(u_tolower(val));
+        tmpset.insert(u_tolower(val));
         tmpset.insert(rcx_map_ptr->second.begin(), rcx_map_ptr->second.end());
         current_state.step(val, tmpset);
       }
       else
       {
-        tmpset.insert(tolower(val));
+        tmpset.insert(u_tolower(val));
         current_state.step(val, tmpset);
       }
     }
-- 
2.43.0


From be5d985ceb481db9212fcc664bf4cc1893291046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:51:42 +0000
Subject: [PATCH 25/63] fix: -I had no effect on the soft hyphen when -i was
 given too

---
 lttoolbox/fst_processor.cc | 3 +++
 lttoolbox/lt_proc.cc       | 4 +++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index c3ce032..f95bd13 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -2489,6 +2489,9 @@ void
 FSTProcessor::setUseDefaultIgnoredChars(bool value)
 {
   useDefaultIgnoredChars = value;
+  if (!value) {
+    ignored_chars.erase(173); // set by initDefaultIgnoredCharacters()
+  }
 }
 
 void
diff --git a/lttoolbox/lt_proc.cc b/lttoolbox/lt_proc.cc
index dcc12a5..0638352 100644
--- a/lttoolbox/lt_proc.cc
+++ b/lttoolbox/lt_proc.cc
@@ -136,6 +136,9 @@ int main(int argc, char *argv[])
   fstp.setDictionaryCaseMode(cli.get_bools()["dictionary-case"]);
 
   auto strs = cli.get_strs();
+  if (strs.find("restore-chars") != strs.end()) {
+    fstp.setUseDefaultIgnoredChars(false);
+  }
   if (strs.find("ignored-chars") != strs.end()) {
     fstp.setIgnoredChars(true);
     for (auto& it : strs["ignored-chars"]) {
@@ -144,7 +147,6 @@ int main(int argc, char *argv[])
   }
   if (strs.find("restore-chars") != strs.end()) {
     fstp.setRestoreChars(true);
-    fstp.setUseDefaultIgnoredChars(false);
     for (auto& it : strs["restore-chars"]) {
       fstp.parseRCX(it);
     }
-- 
2.43.0


From c0c35451c03527999a498b12e1a3689c99ebde12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:44 +0000
Subject: [PATCH 26/63] fix: library bilingual lookups lost the tags read after
 the last match

---
 lttoolbox/fst_processor.cc | 36 +++++++++++++++++-------------------
 1 file changed, 17 insertions(+), 19 deletions(-)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index f95bd13..ed9e1e4 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -1671,10 +1671,11 @@ FSTProcessor::step_biltrans(UStringView word, std::vector<UString>& result, UStr
                                       escaped_chars,
                                       displayWeightsMode, maxAnalyses, maxWeightClasses,
                                       uppercase, firstupper, 0);
-    }
-    if (current_state.size() == 0) {
-      if (!result.empty()) queue.append(symbol);
-      else return false;
+      queue.clear();
+    } else if (!result.empty()) {
+      queue.append(symbol); // read since the last match
+    } else if (current_state.size() == 0) {
+      return false;
     }
   }
   return !result.empty();
@@ -1971,33 +1972,30 @@ FSTProcessor::biltransWithQueue(UStringView input_word, bool with_delim)
                                       escaped_chars,
                                       displayWeightsMode, maxAnalyses, maxWeightClasses,
                                       uppercase, firstupper, 0);
+      queue.clear();
     }
-
-    if(current_state.size() == 0)
+    else if(!result.empty())
+    {
+      queue.append(symbol); // read since the last match
+    }
+    else if(current_state.size() == 0)
     {
-      if(!symbol.empty() && !result.empty())
+      // word is not present
+      if(with_delim)
       {
-        queue.append(symbol);
+        return {"^@"_u + US(input_word.substr(1)), 0};
       }
       else
       {
-        // word is not present
-        if(with_delim)
-        {
-          return {"^@"_u + US(input_word.substr(1)), 0};
-        }
-        else
-        {
-          return {"@"_u + US(input_word), 0};
-        }
+        return {"@"_u + US(input_word), 0};
       }
     }
   }
 
-  if (!seentags
+  if (result.empty() || (!seentags
       && current_state.filterFinals(all_finals, alphabet, escaped_chars,
                                     displayWeightsMode, maxAnalyses, maxWeightClasses,
-                                    uppercase, firstupper, 0).empty())
+                                    uppercase, firstupper, 0).empty()))
   {
     // word is not present
     if(with_delim)
-- 
2.43.0


From 7f4119b8c08508735ead536d37c919955dcf836e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:37 +0000
Subject: [PATCH 27/63] fix: an empty paradigm swallowed the entries after it

The current paradigm was only closed when it had any entry in the
compiled direction; otherwise the sections' entries went into it.
---
 lttoolbox/compiler.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lttoolbox/compiler.cc b/lttoolbox/compiler.cc
index 21b3c60..5efff22 100644
--- a/lttoolbox/compiler.cc
+++ b/lttoolbox/compiler.cc
@@ -191,8 +191,8 @@ Compiler::procParDef()
     {
       paradigms[current_paradigm].minimize();
       paradigms[current_paradigm].joinFinals();
-      current_paradigm.clear();
     }
+    current_paradigm.clear();
   }
 }
 
-- 
2.43.0


From 2e54755df6666431d03a22a5a0924563699fccb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:37 +0000
Subject: [PATCH 28/63] fix: a negated character class in a regexp also matched
 nothing

Its first member was symbol 0, the empty string.
---
 lttoolbox/regexp_compiler.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lttoolbox/regexp_compiler.cc b/lttoolbox/regexp_compiler.cc
index 18c7bee..b9f8ab0 100644
--- a/lttoolbox/regexp_compiler.cc
+++ b/lttoolbox/regexp_compiler.cc
@@ -341,7 +341,7 @@ RegexpCompiler::Esp()
     consume(']');
     Postop();
 
-    for(int i = 0; i < 256 ;i++)
+    for(int i = 1; i < 256 ;i++)
     {
       if(brackets.find(i) == brackets.end())
       {
-- 
2.43.0


From 2a42a6563fc45d57dcc9eaf7e646af9ff2acc798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:51 +0000
Subject: [PATCH 29/63] fix: entries sharing a prefix took over each other's
 weights

insertSingleTransduction reused an arc whatever its weight, and failed
with -1 where several arcs had the same label.
---
 lttoolbox/transducer.cc | 49 +++++++++++++++--------------------------
 1 file changed, 18 insertions(+), 31 deletions(-)

diff --git a/lttoolbox/transducer.cc b/lttoolbox/transducer.cc
index 5054540..ce6bd56 100644
--- a/lttoolbox/transducer.cc
+++ b/lttoolbox/transducer.cc
@@ -70,42 +70,29 @@ Transducer::operator =(Transducer const &t)
 int
 Transducer::insertSingleTransduction(int const tag, int const source, double const weight)
 {
-  if(transitions.find(source) != transitions.end())
+  auto it = transitions.find(source);
+  if(it == transitions.end())
   {
-    if(transitions[source].count(tag) == 1)
+    return -1;
+  }
+
+  auto range = it->second.equal_range(tag);
+  bool only_one = it->second.count(tag) == 1;
+  for(; range.first != range.second; range.first++)
+  {
+    // an arc is shared only if it has the same weight;
+    // if there's a local cycle besides other arcs it must be ignored
+    if(range.first->second.second == weight &&
+       (only_one || range.first->second.first != source))
     {
-      auto range = transitions[source].equal_range(tag);
       return range.first->second.first;
     }
-    else if(transitions[source].count(tag) == 0)
-    {
-      // new state
-      int state = newState();
-      transitions[source].insert({tag, std::make_pair(state, weight)});
-      return state;
-    }
-    else if(transitions[source].count(tag) == 2)
-    {
-      // there's a local cycle, must be ignored and treated like in '1'
-      auto range = transitions[source].equal_range(tag);
-      for(; range.first != range.second; range.first++)
-      {
-        if(range.first->second.first != source)
-        {
-          return range.first->second.first;
-        }
-      }
-      return -1;
-    }
-    else
-    {
-      return -1;
-    }
-  }
-  else
-  {
-    return -1;
   }
+
+  // new state
+  int state = newState();
+  it->second.insert({tag, std::make_pair(state, weight)});
+  return state;
 }
 
 int
-- 
2.43.0


From 651d173fc27a665d0cab0772c2fa5ca2cc5d77fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:51 +0000
Subject: [PATCH 30/63] fix: entries went on inside the cycles of a preceding
 regexp or paradigm

After [ab]+ (minimised in a paradigm), <i>a</i> took the loop at the
final state for its own arc, so that [ab]+ alone was accepted.
---
 lttoolbox/transducer.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lttoolbox/transducer.cc b/lttoolbox/transducer.cc
index ce6bd56..76b0451 100644
--- a/lttoolbox/transducer.cc
+++ b/lttoolbox/transducer.cc
@@ -131,7 +131,14 @@ Transducer::insertTransducer(int const source, Transducer &t,
 
   transitions[source].insert({epsilon_tag, std::make_pair(relation[t.initial], default_weight)});
 
-  return relation[t.finals.begin()->first];
+  int last = relation[t.finals.begin()->first];
+  if(!transitions[last].empty())
+  {
+    // what is added next must not be mixed up with a cycle through the final state
+    last = insertNewSingleTransduction(epsilon_tag, last, default_weight);
+  }
+
+  return last;
 }
 
 void
-- 
2.43.0


From 5648dcc51896d935a111933f520147cd3da2205e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:51 +0000
Subject: [PATCH 31/63] fix: ACX variants applied backwards where entries share
 a prefix

The arcs for the variants of a letter lead to the same state as the
letter's; an entry written with a variant went on from that state, and
so was accepted with the plain letter too.
---
 lttoolbox/compiler.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lttoolbox/compiler.cc b/lttoolbox/compiler.cc
index 5efff22..fb9aacd 100644
--- a/lttoolbox/compiler.cc
+++ b/lttoolbox/compiler.cc
@@ -271,7 +271,11 @@ Compiler::matchTransduction(std::vector<int> const &pi,
         weight_value = default_weight;
       }
 
-      int new_state = t.insertSingleTransduction(tag, state, weight_value);
+      // the variants in acx_map are further arcs to the same state, which
+      // an entry that has only the variant letter must not share
+      int new_state = acx_map.empty() ?
+        t.insertSingleTransduction(tag, state, weight_value) :
+        t.insertNewSingleTransduction(tag, state, weight_value);
 
       if (is_separable) {
         // loop-back symbols for <ANY_TAG> and <ANY_CHAR>
-- 
2.43.0


From 873ff26be0ed661bdd9d9fb857222941511249fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:08 +0000
Subject: [PATCH 32/63] fix: lt-expand refused entries going on after an empty
 paradigm

An entry whose paradigm has nothing in its direction expands to nothing,
but </e> need not come next.
---
 lttoolbox/expander.cc | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/lttoolbox/expander.cc b/lttoolbox/expander.cc
index 4bf0dc4..13ac576 100644
--- a/lttoolbox/expander.cc
+++ b/lttoolbox/expander.cc
@@ -432,11 +432,6 @@ Expander::procEntry(UFILE* output)
 
       if(attribute == Compiler::COMPILER_RESTRICTION_LR_VAL)
       {
-        if(paradigm[p].size() == 0 && paradigm_lr[p].size() == 0)
-        {
-          skip(name, Compiler::COMPILER_ENTRY_ELEM);
-          return;
-        }
         EntList first = items_lr;
         append(first, paradigm[p]);
         append(items_lr, paradigm_lr[p]);
@@ -444,11 +439,6 @@ Expander::procEntry(UFILE* output)
       }
       else if(attribute == Compiler::COMPILER_RESTRICTION_RL_VAL)
       {
-        if(paradigm[p].size() == 0 && paradigm_rl[p].size() == 0)
-        {
-          skip(name, Compiler::COMPILER_ENTRY_ELEM);
-          return;
-        }
         EntList first = items_rl;
         append(first, paradigm[p]);
         append(items_rl, paradigm_rl[p]);
-- 
2.43.0


From 511babdce5d543e5560020b6c60115658ee50e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:08 +0000
Subject: [PATCH 33/63] fix: lt-expand lost one-way forms of entries with
 several paradigms

What a first paradigm gives in one direction only was not combined with
the unrestricted entries of the next.
---
 lttoolbox/expander.cc | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/lttoolbox/expander.cc b/lttoolbox/expander.cc
index 13ac576..c00400e 100644
--- a/lttoolbox/expander.cc
+++ b/lttoolbox/expander.cc
@@ -446,17 +446,18 @@ Expander::procEntry(UFILE* output)
       }
       else
       {
-        if(paradigm_lr[p].size() > 0)
-        {
-          items_lr.insert(items_lr.end(), items.begin(), items.end());
-        }
-        if(paradigm_rl[p].size() > 0)
-        {
-          items_rl.insert(items_rl.end(), items.begin(), items.end());
-        }
-
+        EntList first_lr = items_lr;
+        append(first_lr, paradigm[p]);
+        items_lr.insert(items_lr.end(), items.begin(), items.end());
         append(items_lr, paradigm_lr[p]);
+        items_lr.insert(items_lr.end(), first_lr.begin(), first_lr.end());
+
+        EntList first_rl = items_rl;
+        append(first_rl, paradigm[p]);
+        items_rl.insert(items_rl.end(), items.begin(), items.end());
         append(items_rl, paradigm_rl[p]);
+        items_rl.insert(items_rl.end(), first_rl.begin(), first_rl.end());
+
         append(items, paradigm[p]);
       }
     }
-- 
2.43.0


From ec972bfb6d57ad0675ef3e7fe8405caa39c5b041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:17 +0000
Subject: [PATCH 34/63] fix: lt-expand did not escape the first character of a
 text

---
 lttoolbox/expander.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lttoolbox/expander.cc b/lttoolbox/expander.cc
index c00400e..e151e37 100644
--- a/lttoolbox/expander.cc
+++ b/lttoolbox/expander.cc
@@ -93,7 +93,7 @@ Expander::readString(UString &result, UStringView name)
   {
     UString value = XMLParseUtil::readValue(reader);
     UString escaped = "^$/<>{}\\*@#+~:"_u;
-    for(size_t i = value.size()-1; i > 0; i--)
+    for(size_t i = value.size(); i-- > 0; )
     {
       if(escaped.find(value[i]) != UString::npos) {
         value.insert(value.begin()+i, '\\');
-- 
2.43.0


From 95e2ac4fcde713228c88b43b9cb3113fa5010e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:50 +0000
Subject: [PATCH 35/63] fix: weight of a paradigm at the end of an entry was
 uninitialised

It goes onto the arc into the paradigm, so that compiled weights depended
on what the memory held before.
---
 lttoolbox/entry_token.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lttoolbox/entry_token.h b/lttoolbox/entry_token.h
index 0f82c80..4628164 100644
--- a/lttoolbox/entry_token.h
+++ b/lttoolbox/entry_token.h
@@ -47,7 +47,7 @@ private:
   /**
    * Weight value for the entry (default_weight if unspecified)
    */
-  double weight;
+  double weight = 0;
 
   /**
    * Left side of transduction (if 'single_transduction')
-- 
2.43.0


From 77c01262b923d921b6174c7def38151f5db5f270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:52 +0000
Subject: [PATCH 36/63] fix: parallel arcs with another weight were dropped

Of two arcs with the same label between the same states, linkStates kept
the first, not the cheaper.
---
 lttoolbox/transducer.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lttoolbox/transducer.cc b/lttoolbox/transducer.cc
index 76b0451..7aefb79 100644
--- a/lttoolbox/transducer.cc
+++ b/lttoolbox/transducer.cc
@@ -153,7 +153,8 @@ Transducer::linkStates(int const source, int const target,
     auto range = transitions[source].equal_range(tag);
     for(;range.first != range.second; range.first++)
     {
-      if(range.first->first == tag && range.first->second.first == target)
+      if(range.first->first == tag && range.first->second.first == target &&
+         range.first->second.second == weight)
       {
         return;
       }
-- 
2.43.0


From c03d4560fdb1ac0dc42553ef65d455ad06b7c856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:52 +0000
Subject: [PATCH 37/63] fix: AT&T paths through shared states were left out of
 their section

The word/punctuation types were passed on once per state, in depth-first
order, so types that reached a state later never got to the arcs after it.
---
 lttoolbox/att_compiler.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lttoolbox/att_compiler.cc b/lttoolbox/att_compiler.cc
index e8f587f..a34e9b3 100644
--- a/lttoolbox/att_compiler.cc
+++ b/lttoolbox/att_compiler.cc
@@ -474,18 +474,20 @@ AttCompiler::classify_forwards()
   while(!todo.empty()) {
     int next = todo.top();
     todo.pop();
-    if(done.find(next) != done.end()) continue;
+    done.insert(next);
     AttNode* n1 = get_node(next);
     for(auto& t1 : n1->transductions) {
       AttNode* n2 = get_node(t1.to);
+      bool changed = false;
       for(auto& t2 : n2->transductions) {
+        changed = changed || (t2.type | t1.type) != t2.type;
         t2.type |= t1.type;
       }
-      if(done.find(t1.to) == done.end()) {
+      // a state that gets a new type after its turn must pass it on too
+      if(changed || done.find(t1.to) == done.end()) {
         todo.push(t1.to);
       }
     }
-    done.insert(next);
   }
 }
 
-- 
2.43.0


From 7332dd9ba55e537a27d207893480e1f3f4a4f2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:43 +0000
Subject: [PATCH 38/63] fix: the weight of a sole final state was lost in
 transducer operations

Reversing, minimising or inserting a transducer kept the weights of final
states only if there were at least two of them.
---
 lttoolbox/transducer.cc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/lttoolbox/transducer.cc b/lttoolbox/transducer.cc
index 7aefb79..54510e2 100644
--- a/lttoolbox/transducer.cc
+++ b/lttoolbox/transducer.cc
@@ -132,10 +132,11 @@ Transducer::insertTransducer(int const source, Transducer &t,
   transitions[source].insert({epsilon_tag, std::make_pair(relation[t.initial], default_weight)});
 
   int last = relation[t.finals.begin()->first];
-  if(!transitions[last].empty())
+  double final_weight = t.finals.begin()->second;
+  if(!transitions[last].empty() || final_weight != default_weight)
   {
     // what is added next must not be mixed up with a cycle through the final state
-    last = insertNewSingleTransduction(epsilon_tag, last, default_weight);
+    last = insertNewSingleTransduction(epsilon_tag, last, final_weight);
   }
 
   return last;
@@ -683,6 +684,13 @@ void
 Transducer::reverse(int const epsilon_tag)
 {
   joinFinals(epsilon_tag);
+  if(finals.begin()->second != default_weight)
+  {
+    int state = insertNewSingleTransduction(epsilon_tag, finals.begin()->first,
+                                            finals.begin()->second);
+    finals.clear();
+    finals.insert({state, default_weight});
+  }
 
   std::map<int, std::multimap<int, std::pair<int, double> > > tmp_transitions;
 
-- 
2.43.0


From f49600ee8663893aee2d14935b8b3d82271bbba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:48 +0000
Subject: [PATCH 39/63] fix: minimising a transducer with no path to a final
 state was an error

lt-restrict -m refused dictionaries with a section of which no entry is
left.
---
 lttoolbox/transducer.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lttoolbox/transducer.cc b/lttoolbox/transducer.cc
index 54510e2..03e7d37 100644
--- a/lttoolbox/transducer.cc
+++ b/lttoolbox/transducer.cc
@@ -395,6 +395,11 @@ Transducer::minimize(int const epsilon_tag)
   if (finals.empty()) return;
   reverse(epsilon_tag);
   determinize(epsilon_tag);
+  if (finals.empty()) {
+    // no final state can be reached
+    clear();
+    return;
+  }
   reverse(epsilon_tag);
   determinize(epsilon_tag);
 }
-- 
2.43.0


From 6dc020964e9e7696caecd1ef662e356db2c718c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:48 +0000
Subject: [PATCH 40/63] fix: lt-restrict applied left variants to lr and right
 variants to rl

lt-comp lr takes entries of any left variant and lt-comp rl those of any
right one; restricting a unified transducer dropped them.
---
 lttoolbox/lt_restrict.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lttoolbox/lt_restrict.cc b/lttoolbox/lt_restrict.cc
index d0126cf..0429c99 100644
--- a/lttoolbox/lt_restrict.cc
+++ b/lttoolbox/lt_restrict.cc
@@ -83,13 +83,15 @@ int main(int argc, char* argv[])
     if (StringUtils::startswith(t, u"<r:") ||
         (has_var && StringUtils::startswith(t, u"<v:")) ||
         StringUtils::startswith(t, u"<alt:") ||
-        StringUtils::startswith(t, u"<vl:") ||
-        StringUtils::startswith(t, u"<vr:")) {
+        (dir == "RL" && StringUtils::startswith(t, u"<vl:")) ||
+        (dir == "LR" && StringUtils::startswith(t, u"<vr:"))) {
       int32_t s = alpha(-i, -i);
       if (!keep.count(s)) {
         drop.insert(s);
       }
-    } else if (!has_var && StringUtils::startswith(t, u"<v:")) {
+    } else if ((!has_var && StringUtils::startswith(t, u"<v:")) ||
+               StringUtils::startswith(t, u"<vl:") ||
+               StringUtils::startswith(t, u"<vr:")) {
       keep.insert(alpha(-i, -i));
     }
   }
-- 
2.43.0


From 8198b8f48015dc68fb673027abdbd4b6f87425d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:16 +0000
Subject: [PATCH 41/63] fix: lt-merge, lt-paradigm and lt-tmxproc aborted on
 malformed input instead of reporting it

---
 lttoolbox/lt_merge.cc    | 14 ++++++++++----
 lttoolbox/lt_paradigm.cc | 31 +++++++++++++++++++------------
 lttoolbox/lt_tmxproc.cc  | 10 +++++++++-
 3 files changed, 38 insertions(+), 17 deletions(-)

diff --git a/lttoolbox/lt_merge.cc b/lttoolbox/lt_merge.cc
index ed028bf..07a2128 100644
--- a/lttoolbox/lt_merge.cc
+++ b/lttoolbox/lt_merge.cc
@@ -43,11 +43,17 @@ int main(int argc, char *argv[])
   FSTProcessor fstp;
   fstp.setNullFlush(true); // cf. description of cli["null-flush"]
   fstp.initBiltrans();
-  if(unmerge) {
-    fstp.quoteUnmerge(input, output);
+  try {
+    if(unmerge) {
+      fstp.quoteUnmerge(input, output);
+    }
+    else {
+      fstp.quoteMerge(input, output);
+    }
   }
-  else {
-    fstp.quoteMerge(input, output);
+  catch (std::exception& e) {
+    std::cerr << e.what() << std::endl;
+    exit(EXIT_FAILURE);
   }
 
   closeOutTextFile(output);
diff --git a/lttoolbox/lt_paradigm.cc b/lttoolbox/lt_paradigm.cc
index 3773602..9b7f6b4 100644
--- a/lttoolbox/lt_paradigm.cc
+++ b/lttoolbox/lt_paradigm.cc
@@ -24,6 +24,7 @@
 #include <lttoolbox/symbol_iter.h>
 #include <lttoolbox/string_utils.h>
 
+#include <iostream>
 #include <queue>
 
 void expand(Transducer& inter, int state, const std::set<int>& past_states,
@@ -193,19 +194,25 @@ int main(int argc, char* argv[])
   UFILE* output = openOutTextFile(cli.get_files()[2]);
 
   UString cur;
-  do {
-    UChar32 c = input.get();
-    if (c == '\n' || c == '\0' || c == U_EOF) {
-      process(cur, trans, alpha, letters, tags, output, sort);
-      if (c != U_EOF) {
-        u_fputc(c, output);
-        u_fflush(output);
+  try {
+    do {
+      UChar32 c = input.get();
+      if (c == '\n' || c == '\0' || c == U_EOF) {
+        process(cur, trans, alpha, letters, tags, output, sort);
+        if (c != U_EOF) {
+          u_fputc(c, output);
+          u_fflush(output);
+        }
+        cur.clear();
+      } else {
+        cur += c;
       }
-      cur.clear();
-    } else {
-      cur += c;
-    }
-  } while (!input.eof());
+    } while (!input.eof());
+  }
+  catch (std::exception& e) {
+    std::cerr << e.what() << std::endl;
+    exit(EXIT_FAILURE);
+  }
 
   closeOutTextFile(output);
   return 0;
diff --git a/lttoolbox/lt_tmxproc.cc b/lttoolbox/lt_tmxproc.cc
index d0e6da8..23de626 100644
--- a/lttoolbox/lt_tmxproc.cc
+++ b/lttoolbox/lt_tmxproc.cc
@@ -19,6 +19,8 @@
 #include <lttoolbox/cli.h>
 #include <lttoolbox/file_utils.h>
 
+#include <iostream>
+
 int main(int argc, char *argv[])
 {
   LtLocale::tryToSetLocale();
@@ -48,7 +50,13 @@ int main(int argc, char *argv[])
   }
   UFILE* output = openOutTextFile(cli.get_files()[2].c_str());
 
-  fstp.tm_analysis(input, output, tm_mode);
+  try {
+    fstp.tm_analysis(input, output, tm_mode);
+  }
+  catch (std::exception& e) {
+    std::cerr << e.what() << std::endl;
+    exit(EXIT_FAILURE);
+  }
 
   closeOutTextFile(output);
   return EXIT_SUCCESS;
-- 
2.43.0


From 30c8dcd54d47a81d90bc71d46eb9bd64df5ca0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:16 +0000
Subject: [PATCH 42/63] fix: lt-comp overflowed on state numbers that do not
 fit an int in AT&T files

---
 lttoolbox/att_compiler.cc | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/lttoolbox/att_compiler.cc b/lttoolbox/att_compiler.cc
index a34e9b3..8be614a 100644
--- a/lttoolbox/att_compiler.cc
+++ b/lttoolbox/att_compiler.cc
@@ -149,14 +149,21 @@ AttCompiler::add_transition(int from, int to,
  * - DGS 2025-08-29
  */
 
-int fast_stoi(UString s) {
+int fast_stoi(UString s, int offset = 0) {
   int ret = 0;
   for (size_t i = 0; i < s.size(); i++) {
     if (s[i] < '0' || s[i] > '9') throw std::invalid_argument("bad int");
+    int digit = s[i] - '0';
+    if (ret > (std::numeric_limits<int>::max() - digit) / 10) {
+      throw std::invalid_argument("int out of range");
+    }
     ret *= 10;
-    ret += (s[i] - '0');
+    ret += digit;
+  }
+  if (ret > std::numeric_limits<int>::max() - offset) {
+    throw std::invalid_argument("int out of range");
   }
-  return ret;
+  return ret + offset;
 }
 
 double fast_stod(UString s) {
@@ -261,7 +268,7 @@ AttCompiler::parse(std::string const &file_name, bool read_rl)
     }
 
     try {
-      from = fast_stoi(tokens[0]) + state_id_offset;
+      from = fast_stoi(tokens[0], state_id_offset);
     } catch (const std::invalid_argument& e) {
       std::cerr << "Error: invalid source state in file '" << file_name << "' on line " << line_number << "." << std::endl;
       exit(EXIT_FAILURE);
@@ -301,7 +308,7 @@ AttCompiler::parse(std::string const &file_name, bool read_rl)
     else
     {
       try {
-        to = fast_stoi(tokens[1]) + state_id_offset;
+        to = fast_stoi(tokens[1], state_id_offset);
       } catch (const std::invalid_argument& e) {
 	std::cerr << "Error: invalid target state in file '" << file_name << "' on line " << line_number << "." << std::endl;
 	exit(EXIT_FAILURE);
-- 
2.43.0


From 0f6684e4dada74fbe9558c604b24a19fe40e0362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:16 +0000
Subject: [PATCH 43/63] fix: lt-merge ignored its input file unless an output
 file was given too

---
 lttoolbox/lt_merge.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lttoolbox/lt_merge.cc b/lttoolbox/lt_merge.cc
index 07a2128..5638228 100644
--- a/lttoolbox/lt_merge.cc
+++ b/lttoolbox/lt_merge.cc
@@ -35,7 +35,7 @@ int main(int argc, char *argv[])
   auto strs = cli.get_strs();
   bool unmerge = cli.get_bools()["unmerge"];
   InputFile input;
-  if (!cli.get_files()[1].empty()) {
+  if (!cli.get_files()[0].empty()) {
     input.open_or_exit(cli.get_files()[0].c_str());
   }
   UFILE* output = openOutTextFile(cli.get_files()[1]);
-- 
2.43.0


From 62d2629be1026de375e61ad0ce9126641e094cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:11 +0000
Subject: [PATCH 44/63] fix: transliteration and postgeneration took blanks
 from an empty queue after an escaped space

---
 lttoolbox/fst_processor.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index ed9e1e4..99446c4 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -1597,8 +1597,10 @@ FSTProcessor::transliteration(InputFile& input, UFILE *output)
         cur_word = 0;
       }
       if (start_pos >= transliteration_queue.front().size()) {
-        write(blankqueue.front(), output);
-        blankqueue.pop();
+        if (!blankqueue.empty()) {
+          write(blankqueue.front(), output);
+          blankqueue.pop();
+        }
         bool has_wblank = !wblankqueue.front().empty();
         write(wblankqueue.front(), output);
         wblankqueue.pop_front();
@@ -1612,7 +1614,7 @@ FSTProcessor::transliteration(InputFile& input, UFILE *output)
         UString out;
         for (auto c : word) {
           if (c == ' ') {
-            if (space_out + space_diff >= space_count) {
+            if (space_out + space_diff >= space_count || blankqueue.empty()) {
               out += ' ';
             } else {
               out += blankqueue.front();
@@ -1632,7 +1634,7 @@ FSTProcessor::transliteration(InputFile& input, UFILE *output)
         if (has_wblank) {
           write(WBLANK_FINAL, output);
         }
-        while (space_diff < 0) {
+        while (space_diff < 0 && !blankqueue.empty()) {
           if (blankqueue.front() != " "_u) {
             write(blankqueue.front(), output);
           }
-- 
2.43.0


From 081e7260c664718783e7c2a74db0e0ff5a7cfae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:14:00 +0000
Subject: [PATCH 45/63] fix: postgeneration doubled its state at every capital
 and gave up on long capitalised matches

---
 lttoolbox/state.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lttoolbox/state.cc b/lttoolbox/state.cc
index 2595830..ea4c885 100644
--- a/lttoolbox/state.cc
+++ b/lttoolbox/state.cc
@@ -459,7 +459,7 @@ State::step_case_override(UChar32 val, bool caseSensitive)
   if (!u_isupper(val) || caseSensitive) {
     step(val);
   } else {
-    step_override(val, u_tolower(val), u_tolower(val), val);
+    step_override(val, u_tolower(val), val);
   }
 }
 
-- 
2.43.0


From 9496a27f0074d719dbf3fd84d572163a33fc1a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:25:43 +0000
Subject: [PATCH 46/63] fix: lt-tmxproc lost numbers when a stored segment was
 the beginning of another one

---
 lttoolbox/fst_processor.cc | 14 ++++++++++++--
 lttoolbox/fst_processor.h  |  5 +++++
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index 99446c4..45a1f63 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -255,7 +255,13 @@ FSTProcessor::readTMAnalysis(InputFile& input)
   isLastBlankTM = false;
   if(!input_buffer.isEmpty())
   {
-    return input_buffer.next();
+    int32_t again = input_buffer.next();
+    if(!numbers_again.empty() && again == alphabet(u"<n>"))
+    {
+      numbers.push_back(numbers_again.front());
+      numbers_again.pop_front();
+    }
+    return again;
   }
 
   UChar32 val = input.get();
@@ -1156,6 +1162,7 @@ FSTProcessor::tm_analysis(InputFile& input, UFILE *output, TranslationMemoryMode
   UString sf;     //surface form
   int last = 0;
   size_t last_size = 0; // size of sf at last match
+  size_t last_numbers = 0; // numbers read at last match
 
   while(int32_t val = readTMAnalysis(input))
   {
@@ -1169,7 +1176,7 @@ FSTProcessor::tm_analysis(InputFile& input, UFILE *output, TranslationMemoryMode
                                           blankqueue, numbers).substr(1);
         last = input_buffer.getPos();
         last_size = sf.size();
-        numbers.clear();
+        last_numbers = numbers.size();
       }
     }
     else if(sf.empty() && u_isspace(val))
@@ -1285,6 +1292,9 @@ FSTProcessor::tm_analysis(InputFile& input, UFILE *output, TranslationMemoryMode
         u_fprintf(output, "[%S]", lf.c_str());
         input_buffer.setPos(last);
         input_buffer.back(1);
+        // the numbers after the match will be read again
+        numbers_again.insert(numbers_again.begin(),
+                             numbers.begin() + last_numbers, numbers.end());
       }
 
       current_state = initial_state;
diff --git a/lttoolbox/fst_processor.h b/lttoolbox/fst_processor.h
index 5e41d33..ed63188 100644
--- a/lttoolbox/fst_processor.h
+++ b/lttoolbox/fst_processor.h
@@ -398,6 +398,11 @@ private:
   void initDecompositionSymbols();
 
   std::vector<UString> numbers;
+
+  /**
+   * Numbers that the translation memory engine will read again after a match
+   */
+  std::deque<UString> numbers_again;
   int readTMAnalysis(InputFile& input);
 
   unsigned int lastBlank(UStringView str);
-- 
2.43.0


From f7c2a74195d8ca32038086c5589c19a3db7d0d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:29:13 +0000
Subject: [PATCH 47/63] fix: analysis looked at an empty blank queue after a
 multiword with an escaped space

---
 lttoolbox/fst_processor.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index 45a1f63..0b528f8 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -513,7 +513,7 @@ FSTProcessor::writeEscapedPopBlanks(UStringView str, UFILE *output)
       u_fputc('\\', output);
     }
     u_fputc(str[i], output);
-    if (str[i] == ' ') {
+    if (str[i] == ' ' && !blankqueue.empty()) {
       if (blankqueue.front() == " "_u) {
         blankqueue.pop();
       } else {
-- 
2.43.0


From 5c2f00b3f86427f93a68f351eeab55fabb5d0948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:07:03 +0000
Subject: [PATCH 48/63] fix: postgeneration and transliteration printed U+FFFF
 after text without a final newline

---
 lttoolbox/fst_processor.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index 0b528f8..3bfbf44 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -387,7 +387,7 @@ FSTProcessor::readTransliterationWord(InputFile& input)
           word.push_back(static_cast<int32_t>(input.get()));
         } else if (c == '<') {
           word.push_back(alphabet(input.readBlock('<', '>')));
-        } else if (c == '\0') {
+        } else if (c == '\0' || c == U_EOF) {
           input.unget(c);
           break;
         } else {
@@ -402,7 +402,7 @@ FSTProcessor::readTransliterationWord(InputFile& input)
   } else {
     while (!input.eof()) {
       UChar32 c = input.get();
-      if (u_isspace(c) || c == '[' || c == '\0') {
+      if (u_isspace(c) || c == '[' || c == '\0' || c == U_EOF) {
         input.unget(c);
         break;
       } else if (c == '\\') {
-- 
2.43.0


From 1be0daf6cac2023120982aa24f6a5dd5e64c9c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:09:04 +0000
Subject: [PATCH 49/63] fix: lt-proc -s repeated the last word for ever or
 dropped it when the text did not end with a blank

---
 lttoolbox/fst_processor.cc | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index 3bfbf44..2587a2f 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -2237,6 +2237,7 @@ FSTProcessor::readSAO(InputFile& input)
   UChar32 val = input.get();
   if(input.eof())
   {
+    input_buffer.add(0);        // so it can be gone back over like any other
     return 0;
   }
 
@@ -2308,8 +2309,10 @@ FSTProcessor::SAO(InputFile& input, UFILE *output)
   escaped_chars.insert('<');
   escaped_chars.insert('>');
 
-  while(UChar32 val = readSAO(input))
+  UChar32 val;
+  do
   {
+    val = readSAO(input);
     // test for final states
     if(current_state.isFinal(all_finals))
     {
@@ -2367,7 +2370,11 @@ FSTProcessor::SAO(InputFile& input, UFILE *output)
     {
       if(!isAlphabetic(val) && sf.empty())
       {
-        if(u_isspace(val))
+        if(val == 0)
+        {
+          // nothing is left
+        }
+        else if(u_isspace(val))
         {
           printSpace(val, output);
         }
@@ -2427,8 +2434,14 @@ FSTProcessor::SAO(InputFile& input, UFILE *output)
       sf.clear();
       last_incond = false;
       last_postblank = false;
+
+      if(val == 0 && !input_buffer.isEmpty())
+      {
+        val = 1; // we went back, so there is still something to read
+      }
     }
   }
+  while(val);
 
   // print remaining blanks
   flushBlanks(output);
-- 
2.43.0


From 1f5938e55e883d9d1e53fcd4dfd82dd4bc5d7583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:52 +0000
Subject: [PATCH 50/63] fix: lt-proc -s went back by the wrong number of
 characters, for ever when the text began like an entry with a symbol

---
 lttoolbox/fst_processor.cc | 37 +++++++++++++++++++++++++++++--------
 1 file changed, 29 insertions(+), 8 deletions(-)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index 2587a2f..541cd44 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -2302,7 +2302,9 @@ FSTProcessor::SAO(InputFile& input, UFILE *output)
   State current_state = initial_state;
   UString lf;
   UString sf;
-  int last = 0;
+  size_t last_start = input_buffer.getPos(); // position in input_buffer when sf was last cleared
+  size_t last = 0;       // position in input_buffer after last analysis
+  size_t last_size = 0;  // size of sf at last analysis
 
   escaped_chars.clear();
   escaped_chars.insert('\\');
@@ -2326,6 +2328,7 @@ FSTProcessor::SAO(InputFile& input, UFILE *output)
                                         uppercase, firstupper);
         last_incond = true;
         last = input_buffer.getPos();
+        last_size = sf.size();
       }
       else if(current_state.isFinal(postblank))
       {
@@ -2337,6 +2340,7 @@ FSTProcessor::SAO(InputFile& input, UFILE *output)
                                         uppercase, firstupper);
         last_postblank = true;
         last = input_buffer.getPos();
+        last_size = sf.size();
       }
       else if(!isAlphabetic(val))
       {
@@ -2349,6 +2353,7 @@ FSTProcessor::SAO(InputFile& input, UFILE *output)
         last_postblank = false;
         last_incond = false;
         last = input_buffer.getPos();
+        last_size = sf.size();
       }
     }
     else if(sf.empty() && u_isspace(val))
@@ -2358,6 +2363,7 @@ FSTProcessor::SAO(InputFile& input, UFILE *output)
       last_postblank = false;
       last_incond = false;
       last = input_buffer.getPos();
+      last_size = sf.size();
     }
 
     current_state.step_case(val, beCaseSensitive(current_state));
@@ -2401,7 +2407,7 @@ FSTProcessor::SAO(InputFile& input, UFILE *output)
         input_buffer.back(1);
       }
       else if(isAlphabetic(val) &&
-              ((sf.size()-input_buffer.diffPrevPos(last)) > lastBlank(sf) ||
+              (last_size > lastBlank(sf) ||
                lf.empty()))
       {
         do
@@ -2411,16 +2417,30 @@ FSTProcessor::SAO(InputFile& input, UFILE *output)
         while((val = readSAO(input)) && isAlphabetic(val));
 
         auto limit = firstNotAlpha(sf);
-        unsigned int size = sf.size(); // TODO: change these to character counts
-        input_buffer.back(1+(size-limit.i_utf16));
-        u_fprintf(output, "<d>%S</d>", sf.c_str());
+        if(limit.i_codepoint == 0)
+        {
+          input_buffer.setPos(1 + last_start);
+          writeEscaped(sf.substr(0, U16_IS_LEAD(sf[0]) ? 2 : 1), output);
+        }
+        else
+        {
+          input_buffer.setPos(last_start + limit.i_codepoint);
+          u_fprintf(output, "<d>%S</d>", sf.substr(0, limit.i_utf16).c_str());
+        }
       }
       else if(lf.empty())
       {
         auto limit = firstNotAlpha(sf);
-        unsigned int size = sf.size(); // TODO: change these to character counts
-        input_buffer.back(1+(size-limit.i_utf16));
-        u_fprintf(output, "<d>%S</d>", sf.c_str());
+        if(limit.i_codepoint == 0)
+        {
+          input_buffer.setPos(1 + last_start);
+          writeEscaped(sf.substr(0, U16_IS_LEAD(sf[0]) ? 2 : 1), output);
+        }
+        else
+        {
+          input_buffer.setPos(last_start + limit.i_codepoint);
+          u_fprintf(output, "<d>%S</d>", sf.substr(0, limit.i_utf16).c_str());
+        }
       }
       else
       {
@@ -2432,6 +2452,7 @@ FSTProcessor::SAO(InputFile& input, UFILE *output)
       current_state = initial_state;
       lf.clear();
       sf.clear();
+      last_start = input_buffer.getPos();
       last_incond = false;
       last_postblank = false;
 
-- 
2.43.0


From f5b2dc3f01570444430b849803ceaeef618ea2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:23:30 +0000
Subject: [PATCH 51/63] fix: analysis printed the space of a postblank or
 preblank entry around a longer match of another section

---
 lttoolbox/fst_processor.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index 541cd44..cbceb64 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -869,6 +869,8 @@ FSTProcessor::analysis(InputFile& input, UFILE *output)
         }
         lf = filterFinals(current_state, sf);
         last_incond = true;
+        last_postblank = false;
+        last_preblank = false;
         last = input_buffer.getPos();
         last_size = sf.size();
       }
@@ -880,6 +882,8 @@ FSTProcessor::analysis(InputFile& input, UFILE *output)
         }
         lf = filterFinals(current_state, sf);
         last_postblank = true;
+        last_preblank = false;
+        last_incond = false;
         last = input_buffer.getPos();
         last_size = sf.size();
       }
@@ -891,6 +895,8 @@ FSTProcessor::analysis(InputFile& input, UFILE *output)
         }
         lf = filterFinals(current_state, sf);
         last_preblank = true;
+        last_postblank = false;
+        last_incond = false;
         last = input_buffer.getPos();
         last_size = sf.size();
       }
@@ -2327,6 +2333,7 @@ FSTProcessor::SAO(InputFile& input, UFILE *output)
                                         escaped_chars,
                                         uppercase, firstupper);
         last_incond = true;
+        last_postblank = false;
         last = input_buffer.getPos();
         last_size = sf.size();
       }
@@ -2339,6 +2346,7 @@ FSTProcessor::SAO(InputFile& input, UFILE *output)
                                         escaped_chars,
                                         uppercase, firstupper);
         last_postblank = true;
+        last_incond = false;
         last = input_buffer.getPos();
         last_size = sf.size();
       }
-- 
2.43.0


From 1279922b3030ba932b19fbbd8c45854f6341ff70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:58:59 +0000
Subject: [PATCH 52/63] fix: copying a MatchState wrote through an
 uninitialised pointer

---
 lttoolbox/match_state.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lttoolbox/match_state.cc b/lttoolbox/match_state.cc
index 097af0d..bfd8196 100644
--- a/lttoolbox/match_state.cc
+++ b/lttoolbox/match_state.cc
@@ -33,7 +33,8 @@ MatchState::~MatchState()
   destroy();
 }
 
-MatchState::MatchState(MatchState const &s)
+MatchState::MatchState(MatchState const &s) :
+state(0)
 {
   copy(s);
 }
-- 
2.43.0


From e14ddd4194b1307674447b521891a73ac0385d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:00:25 +0000
Subject: [PATCH 53/63] fix: a copy of a MatchExe pointed into the nodes and
 finals of the original

---
 lttoolbox/match_exe.cc | 12 ++++++------
 lttoolbox/match_exe.h  |  5 +++--
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/lttoolbox/match_exe.cc b/lttoolbox/match_exe.cc
index 85d2497..2e84268 100644
--- a/lttoolbox/match_exe.cc
+++ b/lttoolbox/match_exe.cc
@@ -37,20 +37,20 @@ MatchExe::MatchExe(MatchExe const &te)
 MatchExe::MatchExe(Transducer const &t, std::map<int, int > const &final_type)
 {
   // memory allocation
-  node_list.reserve(t.transitions.size());
+  node_list->reserve(t.transitions.size());
 
   for(auto it = t.transitions.begin(),
         limit = t.transitions.end(); it != limit; it++)
   {
     MatchNode mynode(it->second.size());
-    node_list.push_back(mynode);
+    node_list->push_back(mynode);
   }
 
   // set up finals
   for(auto it = final_type.begin(), limit = final_type.end();
       it != limit; it++)
   {
-    finals[&node_list[it->first]] = it->second;
+    finals[&(*node_list)[it->first]] = it->second;
   }
 
   // set up initial node
@@ -60,12 +60,12 @@ MatchExe::MatchExe(Transducer const &t, std::map<int, int > const &final_type)
   for(auto it = t.transitions.begin(),
         limit = t.transitions.end(); it != limit; it++)
   {
-    MatchNode &mynode = node_list[it->first];
+    MatchNode &mynode = (*node_list)[it->first];
     int i = 0;
     for(auto it2 = it->second.begin(),
           limit2 = it->second.end(); it2 != limit2; it2++)
     {
-      mynode.addTransition(it2->first, &node_list[it2->second.first], it2->second.second, i++);
+      mynode.addTransition(it2->first, &(*node_list)[it2->second.first], it2->second.second, i++);
     }
   }
 }
@@ -97,7 +97,7 @@ MatchExe::destroy()
 MatchNode *
 MatchExe::getInitial()
 {
-  return &node_list[initial_id];
+  return &(*node_list)[initial_id];
 }
 
 std::map<MatchNode *, int> &
diff --git a/lttoolbox/match_exe.h b/lttoolbox/match_exe.h
index 46cd045..f622d37 100644
--- a/lttoolbox/match_exe.h
+++ b/lttoolbox/match_exe.h
@@ -21,6 +21,7 @@
 #include <cstdio>
 #include <cstdlib>
 #include <map>
+#include <memory>
 #include <set>
 #include <vector>
 
@@ -40,9 +41,9 @@ private:
   int initial_id;
 
   /**
-   * MatchNode list
+   * MatchNode list, shared between copies: the nodes point to each other
    */
-  std::vector<MatchNode> node_list;
+  std::shared_ptr<std::vector<MatchNode>> node_list = std::make_shared<std::vector<MatchNode>>();
 
   /**
    * Set of final nodes
-- 
2.43.0


From 26a8b1100f2a8ef7e7e08bf068a8c6bddbc6b7ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:33 +0000
Subject: [PATCH 54/63] fix: patterns with letters outside the BMP in their
 lemma never matched

---
 lttoolbox/pattern_list.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lttoolbox/pattern_list.cc b/lttoolbox/pattern_list.cc
index b476de3..2b15776 100644
--- a/lttoolbox/pattern_list.cc
+++ b/lttoolbox/pattern_list.cc
@@ -112,15 +112,17 @@ PatternList::insertOutOfSequence(UStringView lemma, UStringView tags,
   }
   else
   {
-    for(unsigned int i = 0, limit = lemma.size(); i < limit; i++)
+    std::vector<int32_t> letters;
+    ustring_to_vec32(lemma, letters);
+    for(auto letter : letters)
     {
-      if(lemma[i] == '*')
+      if(letter == '*')
       {
         result.push_back(alphabet(ANY_CHAR));
       }
       else
       {
-        result.push_back(static_cast<int32_t>(lemma[i]));
+        result.push_back(letter);
       }
     }
   }
-- 
2.43.0


From e4b4ed5b1a615536a3fae1c3cf32a7546dd7ec2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:02:57 +0000
Subject: [PATCH 55/63] fix: of several patterns that continue a word with the
 same symbol only one was followed

---
 lttoolbox/match_state.cc   |  4 ++--
 lttoolbox/sorted_vector.cc | 25 ++++++++++++++++---------
 lttoolbox/sorted_vector.h  |  8 ++++++++
 3 files changed, 26 insertions(+), 11 deletions(-)

diff --git a/lttoolbox/match_state.cc b/lttoolbox/match_state.cc
index bfd8196..8689e44 100644
--- a/lttoolbox/match_state.cc
+++ b/lttoolbox/match_state.cc
@@ -91,8 +91,8 @@ MatchState::init(MatchNode *initial)
 void
 MatchState::applySymbol(MatchNode *pnode, int const symbol)
 {
-  MatchNode *aux = pnode->transitions.search(symbol);
-  if(aux != NULL)
+  MatchNode *aux;
+  for(int n = 0; (aux = pnode->transitions.search(symbol, n)) != NULL; n++)
   {
     state[last] = aux;
     last = (last + 1)%BUF_LIMIT;
diff --git a/lttoolbox/sorted_vector.cc b/lttoolbox/sorted_vector.cc
index dad1980..187af50 100644
--- a/lttoolbox/sorted_vector.cc
+++ b/lttoolbox/sorted_vector.cc
@@ -76,23 +76,30 @@ SortedVector::add(int tag, MatchNode *dest, double weight, int pos)
 MatchNode *
 SortedVector::search(int tag)
 {
-  int left = 0, right = size-1;
-  while(left <= right)
+  return search(tag, 0);
+}
+
+MatchNode *
+SortedVector::search(int tag, int n)
+{
+  // find the first item with this tag
+  int left = 0, right = size;
+  while(left < right)
   {
     int mid = (left+right)/2;
-    if(sv[mid].tag == tag)
-    {
-      return sv[mid].dest;
-    }
-    if(sv[mid].tag > tag)
+    if(sv[mid].tag < tag)
     {
-      right = mid - 1;
+      left = mid + 1;
     }
     else
     {
-      left = mid + 1;
+      right = mid;
     }
   }
 
+  if(n < size - left && sv[left + n].tag == tag)
+  {
+    return sv[left + n].dest;
+  }
   return NULL;
 }
diff --git a/lttoolbox/sorted_vector.h b/lttoolbox/sorted_vector.h
index 0752240..84de067 100644
--- a/lttoolbox/sorted_vector.h
+++ b/lttoolbox/sorted_vector.h
@@ -88,6 +88,14 @@ public:
    * @returns the destination MatchNode pointer
    */
   MatchNode * search(int tag);
+
+  /**
+   * Searching method for tags with more than one destination
+   * @param tag to search
+   * @param n which of the destinations of the tag, from 0
+   * @returns the n-th destination, NULL if there are no more
+   */
+  MatchNode * search(int tag, int n);
 };
 
 #endif
-- 
2.43.0


From 5015087220aa1e371d7716d50862c16a1d0187b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:06:06 +0000
Subject: [PATCH 56/63] fix: a word that fits patterns with wildcards in many
 ways overran the buffer of MatchState

---
 lttoolbox/match_state.cc | 21 +++++++++++++++------
 lttoolbox/match_state.h  |  2 +-
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/lttoolbox/match_state.cc b/lttoolbox/match_state.cc
index 8689e44..f3d14a6 100644
--- a/lttoolbox/match_state.cc
+++ b/lttoolbox/match_state.cc
@@ -89,13 +89,22 @@ MatchState::init(MatchNode *initial)
 }
 
 void
-MatchState::applySymbol(MatchNode *pnode, int const symbol)
+MatchState::applySymbol(MatchNode *pnode, int const symbol, int const start)
 {
   MatchNode *aux;
   for(int n = 0; (aux = pnode->transitions.search(symbol, n)) != NULL; n++)
   {
-    state[last] = aux;
-    last = (last + 1)%BUF_LIMIT;
+    // a node reached in several ways counts once, the buffer is limited
+    int i = start;
+    while(i != last && state[i] != aux)
+    {
+      i = (i+1)%BUF_LIMIT;
+    }
+    if(i == last)
+    {
+      state[last] = aux;
+      last = (last + 1)%BUF_LIMIT;
+    }
   }
 }
 
@@ -105,7 +114,7 @@ MatchState::step(int const input)
   int mylast = last;
   for(int i = first; i != mylast; i=(i+1)%BUF_LIMIT)
   {
-    applySymbol(state[i], input);
+    applySymbol(state[i], input, mylast);
   }
   first = mylast;
 }
@@ -116,8 +125,8 @@ MatchState::step(int const input, int const alt)
   int mylast = last;
   for(int i = first; i != mylast; i=(i+1)%BUF_LIMIT)
   {
-    applySymbol(state[i], input);
-    applySymbol(state[i], alt);
+    applySymbol(state[i], input, mylast);
+    applySymbol(state[i], alt, mylast);
   }
   first = mylast;
 }
diff --git a/lttoolbox/match_state.h b/lttoolbox/match_state.h
index 8e86d83..07d9c19 100644
--- a/lttoolbox/match_state.h
+++ b/lttoolbox/match_state.h
@@ -53,7 +53,7 @@ private:
   void destroy();
 
 
-  void applySymbol(MatchNode *pnode, int const symbol);
+  void applySymbol(MatchNode *pnode, int const symbol, int const start);
 public:
   /**
    * Constructor
-- 
2.43.0


From 58e09c8b54781e11892cd30b96e63e52f473e57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:14:01 +0000
Subject: [PATCH 57/63] fix: the union with a transducer that returns to its
 initial state accepted mixtures of both

---
 lttoolbox/transducer.cc | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/lttoolbox/transducer.cc b/lttoolbox/transducer.cc
index 03e7d37..62b72d3 100644
--- a/lttoolbox/transducer.cc
+++ b/lttoolbox/transducer.cc
@@ -861,6 +861,21 @@ Transducer::unionWith(Alphabet &my_a,
                       Transducer &t,
                       int const epsilon_tag)
 {
+  bool cycle = false;
+  for(auto& it : transitions)
+  {
+    for(auto& it2 : it.second)
+    {
+      cycle = cycle || it2.second.first == initial;
+    }
+  }
+  if(cycle)
+  {
+    // t must not be entered after going round a cycle through the initial state
+    int state = newState();
+    linkStates(state, initial, epsilon_tag, default_weight);
+    initial = state;
+  }
   finals.insert({insertTransducer(initial, t, epsilon_tag), default_weight});
 }
 
-- 
2.43.0


From a172e3c4b663a66a1fb4e403b058babc1bf19cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:14:01 +0000
Subject: [PATCH 58/63] fix: determinising a transducer dropped or mixed up the
 weights of its final states

---
 lttoolbox/transducer.cc | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/lttoolbox/transducer.cc b/lttoolbox/transducer.cc
index 62b72d3..e3f73b0 100644
--- a/lttoolbox/transducer.cc
+++ b/lttoolbox/transducer.cc
@@ -299,6 +299,22 @@ Transducer::joinFinals(int const epsilon_tag)
 void
 Transducer::determinize(int const epsilon_tag)
 {
+  // a state of the result can stand for several finals with different
+  // weights, so the weights have to be on transitions
+  std::map<int, double> weighted_finals;
+  for(auto& it : finals)
+  {
+    if(it.second != default_weight)
+    {
+      weighted_finals.insert(it);
+    }
+  }
+  for(auto& it : weighted_finals)
+  {
+    finals.erase(it.first);
+    finals.insert({insertNewSingleTransduction(epsilon_tag, it.first, it.second), default_weight});
+  }
+
   std::vector<sorted_vector<int>> R(2);
   std::vector<sorted_vector<int>> Q_prime;
   std::map<sorted_vector<int>, int> Q_prime_inv;
@@ -339,12 +355,7 @@ Transducer::determinize(int const epsilon_tag)
     for(auto& it : R[t])
     {
       if (Q_prime[it].intersects(finals_state)) {
-        double w = default_weight;
-        auto it3 = finals.find(it);
-        if (it3 != finals.end()) {
-          w = it3->second;
-        }
-        finals_prime.insert({it, w});
+        finals_prime.insert({it, default_weight});
       }
 
       std::map<std::pair<int, double>, sorted_vector<int> > mymap;
-- 
2.43.0


From 88d0b8877efac211d613a8ce82b7ceb6d1c081a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:20 +0000
Subject: [PATCH 59/63] fix: lt-proc -s never ended when the text ended inside
 a CDATA block

---
 lttoolbox/fst_processor.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index cbceb64..81b1ade 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -2256,6 +2256,10 @@ FSTProcessor::readSAO(InputFile& input)
       {
         while(!StringUtils::endswith(str, u"]]>"))
         {
+          if(input.eof())
+          {
+            streamError();
+          }
           str.append(input.readBlock('<', '>').substr(1));
         }
         blankqueue.push(str);
-- 
2.43.0


From 55d519aae5079fa30b9471373e0ad0736004b1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:36 +0000
Subject: [PATCH 60/63] fix: lt-paradigm ignored the tags of a pattern that the
 transducer does not have

---
 lttoolbox/lt_paradigm.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lttoolbox/lt_paradigm.cc b/lttoolbox/lt_paradigm.cc
index 9b7f6b4..49e58b4 100644
--- a/lttoolbox/lt_paradigm.cc
+++ b/lttoolbox/lt_paradigm.cc
@@ -111,6 +111,7 @@ void process(UStringView pattern, std::map<UString, Transducer>& trans,
       }
     } else if (it == 0 && StringUtils::startswith(sym, "<|"_u)) {
       auto or_tags = split_tag(sym, alpha, 1, '|');
+      if (or_tags.empty()) return;
       auto old_state = state;
       for (auto& t : or_tags) {
         if (old_state == state) {
@@ -119,6 +120,9 @@ void process(UStringView pattern, std::map<UString, Transducer>& trans,
           other.linkStates(old_state, state, alpha(t, t));
         }
       }
+    } else if (it == 0) {
+      // a tag which the transducer doesn't have, so nothing can match
+      return;
     } else {
       state = other.insertNewSingleTransduction(alpha(it, it), state);
     }
-- 
2.43.0


From a7aa4fc6249972044f5161ff93a914432aa9e67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:29 +0000
Subject: [PATCH 61/63] fix: lt-compose -a applied transducer2 only to the ends
 of paths

---
 lttoolbox/transducer.cc | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/lttoolbox/transducer.cc b/lttoolbox/transducer.cc
index e3f73b0..e4fca56 100644
--- a/lttoolbox/transducer.cc
+++ b/lttoolbox/transducer.cc
@@ -1481,6 +1481,22 @@ Transducer::compose(Transducer const &g,
     }
     int gf_src = states_f_g_gf[current];
 
+    // If g_anywhere, what follows a match of g may be matched again or
+    // left as it is, just like what precedes it:
+    if (g_anywhere && g_src != g.initial && g.isFinal(g_src)) {
+      next = std::make_pair(f_src, g.initial);
+      if (seen.find(next) == seen.end()) {
+        todo.push_back(next);
+      }
+      if (states_f_g_gf.find(next) == states_f_g_gf.end()) {
+        states_f_g_gf.insert({next, gf.newState()});
+      }
+      gf.linkStates(gf_src,
+                    states_f_g_gf[next],
+                    epsilon_tag,
+                    g.finals.at(g_src));
+    }
+
     // First loop through _epsilon_ transitions of g (input side)
     for(const auto &g_trans_it : g.transitions.at(g_src)) {
       int g_label = g_trans_it.first,
-- 
2.43.0


From ad273228b81d1867f2feffafd66a1e4029663192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:42 +0000
Subject: [PATCH 62/63] fix: a separable dictionary accepted the beginning of a
 rule that shares its rest with another one

---
 lttoolbox/compiler.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lttoolbox/compiler.cc b/lttoolbox/compiler.cc
index fb9aacd..2406c4d 100644
--- a/lttoolbox/compiler.cc
+++ b/lttoolbox/compiler.cc
@@ -96,7 +96,7 @@ Compiler::parse(std::string const &file, UStringView dir)
     int32_t end = alphabet(word_boundary, word_boundary);
     for (auto& it : sections) {
       for (auto fin : it.second.getFinals()) {
-        int end_state = it.second.insertSingleTransduction(end, fin.first);
+        int end_state = it.second.insertNewSingleTransduction(end, fin.first);
         it.second.setFinal(end_state);
       }
     }
-- 
2.43.0


From 3928b563c14adaa9d58d14e8773f838ed305b152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:04 +0000
Subject: [PATCH 63/63] fix: lt-expand called paradigms without entries
 undefined

---
 lttoolbox/expander.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lttoolbox/expander.cc b/lttoolbox/expander.cc
index e151e37..38f38b6 100644
--- a/lttoolbox/expander.cc
+++ b/lttoolbox/expander.cc
@@ -65,6 +65,7 @@ Expander::procParDef()
   }
   else
   {
+    paradigm[current_paradigm]; // defined even if it has no entries
     current_paradigm.clear();
   }
 }
-- 
2.43.0

