From 63c803c03f611dcef42a85e0fc74c6d8f798a821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:36 +0000
Subject: [PATCH 01/39] fix: report a command line option without a value
 instead of looping forever

---
 TestingFramework/tfRegressionTest.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/TestingFramework/tfRegressionTest.cpp b/TestingFramework/tfRegressionTest.cpp
index 5e95254..bb5ff29 100644
--- a/TestingFramework/tfRegressionTest.cpp
+++ b/TestingFramework/tfRegressionTest.cpp
@@ -204,6 +204,14 @@ const fileutil::PathList &RegressionTest::GetInFileSearchPath(void) const {
 	
     for (int i = 1; i < argc;) 
       {      
+      // each option that we know must be followed by its value
+      if (i == argc-1 &&
+          (!strcmp("-O", argv[i]) || !strcmp("-I", argv[i]) ||
+           !strcmp("-R", argv[i]) || !strcmp("-P", argv[i])))
+        {
+        throw std::runtime_error(std::string("missing value for option \"") + argv[i] + "\"!");
+        }
+
       // output filename option
       if (!strcmp("-O", argv[i])) 
         {
-- 
2.43.0


From dcc956d576be34b124d796e6cdaf34e0d5d78596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:38 +0000
Subject: [PATCH 02/39] fix: never report a run that ended in an exception as a
 success

---
 TestingFramework/tfRegressionTest.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/TestingFramework/tfRegressionTest.cpp b/TestingFramework/tfRegressionTest.cpp
index bb5ff29..cdd46e5 100644
--- a/TestingFramework/tfRegressionTest.cpp
+++ b/TestingFramework/tfRegressionTest.cpp
@@ -301,6 +301,8 @@ const fileutil::PathList &RegressionTest::GetInFileSearchPath(void) const {
 	  
 
     int ret = -1; 
+    bool completed = false;
+    bool compareMode = false;
 
     std::set_unexpected(&_UnexpectedHandler);
     std::set_terminate(&_TerminateHandler);
@@ -314,6 +316,8 @@ const fileutil::PathList &RegressionTest::GetInFileSearchPath(void) const {
 
       this->BeginMeasurement();
 
+      // must be determined while the files are open
+      compareMode = this->GetCompareMode();
       
       ret = this->Test(argc, argv);
 
@@ -321,6 +325,7 @@ const fileutil::PathList &RegressionTest::GetInFileSearchPath(void) const {
       this->EndMeasurement();
 
       this->inputUnmatched--;
+      completed = true;
     } 
     CATCH_STDEXCEPTION(std::length_error)
       CATCH_STDEXCEPTION(std::domain_error)
@@ -337,11 +342,17 @@ const fileutil::PathList &RegressionTest::GetInFileSearchPath(void) const {
       catch(...) {
 	std::cerr << "unknow exception" << std::endl;
       }
-    if ( ret != this->GetExpectedReturn() )
+
+    if ( !completed )
+      {
+      // an exception ended the run, this is never a success
+      return ret ? ret : -1;
+      }
+    else if ( ret != this->GetExpectedReturn() )
       {
       return ret;
       }
-    else if ( this->GetCompareMode() )
+    else if ( compareMode )
       {
       return this->inputUnmatched;
       }
-- 
2.43.0


From 5ce52eafd4c404e73e6c1226b220f2b1a336eb12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:59 +0000
Subject: [PATCH 03/39] fix: CompareMeasurement returns zero for equal
 measurements as documented

---
 TestingFramework/tfRegressionTest.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/TestingFramework/tfRegressionTest.cpp b/TestingFramework/tfRegressionTest.cpp
index cdd46e5..0646adc 100644
--- a/TestingFramework/tfRegressionTest.cpp
+++ b/TestingFramework/tfRegressionTest.cpp
@@ -431,13 +431,13 @@ const fileutil::PathList &RegressionTest::GetInFileSearchPath(void) const {
         if ( vis->GetResult() )
           {
           // the results matched
-          ret = 1;
+          ret = 0;
           this->MatchedMeasurement(test);
           }
         else 
           {
           // the results differ
-          ret = 0;
+          ret = 1;
           this->DifferenceMeasurement(test, *baseline);
           }
         
-- 
2.43.0


From 01eda884c19fe1dc9b5aa5d226950a4bceaefd6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:01 +0000
Subject: [PATCH 04/39] fix: release visitors and baseline when a comparison
 throws

---
 TestingFramework/tfRegressionTest.cpp | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/TestingFramework/tfRegressionTest.cpp b/TestingFramework/tfRegressionTest.cpp
index 0646adc..565566e 100644
--- a/TestingFramework/tfRegressionTest.cpp
+++ b/TestingFramework/tfRegressionTest.cpp
@@ -45,6 +45,7 @@
 #include <assert.h>
 #include <list>
 #include <limits>
+#include <memory>
 #include <cstring>
 #if !defined(WIN32) || !defined(_WIN32)
 #include <unistd.h>
@@ -376,11 +377,10 @@ const fileutil::PathList &RegressionTest::GetInFileSearchPath(void) const {
   void RegressionTest::DifferenceMeasurement(Measurement &test, Measurement &input)  {  
     //    std::cout << "difference measurement \"" << test.GetAttributeName() << "\"." << std::endl;  
     this->inputUnmatched++;
-    DifferenceVisitor *vis = this->CreateDifferenceVisitor();
+    std::unique_ptr<DifferenceVisitor> vis(this->CreateDifferenceVisitor());
     vis->SetOutStream(this->GetOutStream());
     vis->SetBaselineMeasurement(&input);
     test.AcceptVisitor(*vis);
-    delete vis;
   }
       
 
@@ -390,11 +390,10 @@ const fileutil::PathList &RegressionTest::GetInFileSearchPath(void) const {
 
   int RegressionTest::CompareMeasurement(Measurement &test, bool tolerant) {
     // check to see if the top if the Inputs is the same type and name
-    Measurement *baseline;
     int ret = 1;
     if (!this->Input.empty()) {
       
-      baseline = this->Input.front();
+      std::unique_ptr<Measurement> baseline(this->Input.front());
       this->Input.pop_front();
       
       if (baseline->GetAttributeName() == test.GetAttributeName() &&
@@ -403,7 +402,7 @@ const fileutil::PathList &RegressionTest::GetInFileSearchPath(void) const {
 	// this is so very ugly
 	// use the path of the test file to find the input file
 	MeasurementFile *inf, *tf;
-	if ((inf = dynamic_cast<MeasurementFile*>(baseline)) &&
+	if ((inf = dynamic_cast<MeasurementFile*>(baseline.get())) &&
 	    (tf = dynamic_cast<MeasurementFile*>(&test))) {
         
         // search the path list for the baseline or input file name
@@ -418,8 +417,8 @@ const fileutil::PathList &RegressionTest::GetInFileSearchPath(void) const {
 	}
 	
 	 
-        CompareVisitor *vis = this->CreateCompareVisitor();
-        vis->SetBaselineMeasurement(baseline);
+        std::unique_ptr<CompareVisitor> vis(this->CreateCompareVisitor());
+        vis->SetBaselineMeasurement(baseline.get());
 
 	if ( tolerant )
           vis->SetTolerance( this->GetRelativeTolerance() );
@@ -441,11 +440,8 @@ const fileutil::PathList &RegressionTest::GetInFileSearchPath(void) const {
           this->DifferenceMeasurement(test, *baseline);
           }
         
-        delete vis;
-        
       } else 
 	this->UnmatchedMeasurement(test);
-      delete baseline;
     } else 
       this->UnmatchedMeasurement(test);
 
-- 
2.43.0


From 3a40d8745de0dbb163a2e081f8d531d232535600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:39 +0000
Subject: [PATCH 05/39] fix: SearchPathList returns an empty path when no file
 was found

---
 FileUtilities/PathName.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FileUtilities/PathName.cpp b/FileUtilities/PathName.cpp
index 457db61..690936a 100644
--- a/FileUtilities/PathName.cpp
+++ b/FileUtilities/PathName.cpp
@@ -294,7 +294,7 @@ namespace fileutil {
       if (fullFileName.IsFile())
 	return fullFileName;
     }
-    return fullFileName;
+    return PathName("");
   }
 
 
-- 
2.43.0


From 4e018f655a6e7104a64b5ff7547428bc9c1f8a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:41 +0000
Subject: [PATCH 06/39] fix: the directory of a file in the root directory is
 the root directory

---
 FileUtilities/PathName.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/FileUtilities/PathName.cpp b/FileUtilities/PathName.cpp
index 690936a..b858b08 100644
--- a/FileUtilities/PathName.cpp
+++ b/FileUtilities/PathName.cpp
@@ -57,20 +57,20 @@
 namespace fileutil {
 
 
-  PathName::PathName(void) {
+  PathName::PathName(void) : fileStat(0), statCached(false) {
   }
 
   
   PathName::~PathName(void) {
   }
   
-  PathName::PathName(const std::string &path) : pathName(path), statCached(false) {
+  PathName::PathName(const std::string &path) : pathName(path), fileStat(0), statCached(false) {
   }
 
-  PathName::PathName(const char *path)  : pathName(path), statCached(false) {
+  PathName::PathName(const char *path)  : pathName(path), fileStat(0), statCached(false) {
   }
 
-  PathName::PathName(const PathName &f) : pathName(f.pathName), statCached(false) {
+  PathName::PathName(const PathName &f) : pathName(f.pathName), fileStat(0), statCached(false) {
   }
   
   PathName &PathName::operator=(const PathName &f) {
@@ -196,8 +196,10 @@ namespace fileutil {
 #else /// POSIX UNIX
     i = path.rfind('/');
 #endif
-    if (i == 0 || i == std::string::npos)
+    if (i == std::string::npos)
       return PathName(".");
+    if (i == 0)
+      return PathName("/");
     return PathName(path.substr(0, i));
   }
 
-- 
2.43.0


From adf216a09022811cf7aa0dd2e6cb3fe1abe29ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:44 +0000
Subject: [PATCH 07/39] fix: do not use the buffers of failed getcwd and
 gethostname calls

---
 FileUtilities/FileUtilities.cpp       | 4 ++--
 TestingFramework/tfRegressionTest.cpp | 4 +++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/FileUtilities/FileUtilities.cpp b/FileUtilities/FileUtilities.cpp
index 85ce031..f57033d 100644
--- a/FileUtilities/FileUtilities.cpp
+++ b/FileUtilities/FileUtilities.cpp
@@ -98,8 +98,8 @@ namespace fileutil {
 
     if (!stat(".", &s)) {
       char currentName[MAX_PATH];
-      getcwd(currentName, MAX_PATH);
-      result = currentName;
+      if (getcwd(currentName, MAX_PATH))
+	result = currentName;
     }
     return PathName(result);
   }
diff --git a/TestingFramework/tfRegressionTest.cpp b/TestingFramework/tfRegressionTest.cpp
index 565566e..17afcbb 100644
--- a/TestingFramework/tfRegressionTest.cpp
+++ b/TestingFramework/tfRegressionTest.cpp
@@ -608,7 +608,9 @@ const fileutil::PathList &RegressionTest::GetInFileSearchPath(void) const {
 #if defined(WIN32)
     strcpy(hostname, "unknow windows host");
 #else
-    gethostname(hostname, 256);
+    if (gethostname(hostname, sizeof(hostname)))
+      strcpy(hostname, "unknown host");
+    hostname[sizeof(hostname)-1] = '\0'; // a long name may be truncated without it
 #endif
     this->GetOutStream() << "<?xml version=\"1.0\" encoding=\"US-ASCII\"?>" << std::endl;
     this->GetOutStream() << "<!-- created on "  << hostname << " at " <<ctime(&t) << " -->" << std::endl;
-- 
2.43.0


From d3ebd80157779695a8d784404a33043b1b1326aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:46 +0000
Subject: [PATCH 08/39] fix: survive nested elements and missing types in a
 baseline document

---
 TestingFramework/tfRegressionTest.cpp | 31 +++++++++++++++------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/TestingFramework/tfRegressionTest.cpp b/TestingFramework/tfRegressionTest.cpp
index 17afcbb..f62b679 100644
--- a/TestingFramework/tfRegressionTest.cpp
+++ b/TestingFramework/tfRegressionTest.cpp
@@ -627,7 +627,11 @@ namespace {
 
     struct XMLParseData {
       XMLParseData(void) : depth(0), m(0) {}
-      ~XMLParseData(void) { assert(!m);}
+      ~XMLParseData(void) {
+	delete m;
+	for (std::list<Measurement*>::iterator i = measurements.begin(); i != measurements.end(); ++i)
+	  delete *i;
+      }
       int depth;
       std::string data;
       Measurement *m;
@@ -637,9 +641,6 @@ namespace {
 
     void start(void *data, const char *el, const char **attr) {  
       XMLParseData &pd = *reinterpret_cast<XMLParseData*>(data);
-      
-      assert(!pd.m);
-      assert(pd.data.length() == 0);
 
       if (pd.depth == 0) {
 	if (el && std::string(el) != "output" ) {
@@ -662,6 +663,9 @@ namespace {
 	      }
 	    }
 	  }
+	  // without a type all we know is the text
+	  if (!dm)
+	    dm = new PlainText;
 	  pd.m = dm;
 		
 	  // get what we know, but we can't really set any of these yet
@@ -714,18 +718,17 @@ namespace {
     void end(void *data, const char *el) { 
       XMLParseData &pd = *reinterpret_cast<XMLParseData*>(data); 
 
-      if (pd.m && pd.depth == 2) {
-	//	pd.data += '\0';
-	pd.m->SetContent(pd.data);	
-	pd.measurements.push_back(pd.m);
-      } else if (pd.m) {
-	// may not be posible, but let's make sure we keep things clean
-	delete pd.m;
-      }
+      if (pd.depth == 2) {
+	if (pd.m) {
+	  //	pd.data += '\0';
+	  pd.m->SetContent(pd.data);	
+	  pd.measurements.push_back(pd.m);
+	}
 
-      pd.m = 0;
+	pd.m = 0;
       
-      pd.data.resize(0);
+	pd.data.resize(0);
+      }
 
       --pd.depth;
     }
-- 
2.43.0


From 7de6c368d3b3aa1341148eb3f8470c05725c0596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:49 +0000
Subject: [PATCH 09/39] fix: free the XML parser when reading the baseline
 fails

---
 TestingFramework/tfRegressionTest.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/TestingFramework/tfRegressionTest.cpp b/TestingFramework/tfRegressionTest.cpp
index f62b679..9ad5d0f 100644
--- a/TestingFramework/tfRegressionTest.cpp
+++ b/TestingFramework/tfRegressionTest.cpp
@@ -733,6 +733,13 @@ namespace {
       --pd.depth;
     }
             
+    // frees the parser however the reading ends
+    struct XMLParserHolder {
+      XMLParserHolder(XML_Parser p) : parser(p) {}
+      ~XMLParserHolder(void) { XML_ParserFree(parser); }
+      XML_Parser parser;
+    };
+
     void data(void *data, const char *s, int len) {    
       XMLParseData &pd = *reinterpret_cast<XMLParseData*>(data);
       
@@ -763,6 +770,8 @@ namespace {
 
     if (!parser)       
       throw std::bad_alloc();
+
+    XMLParserHolder holder(parser);
     
     XML_SetElementHandler(parser, start, end);
 
@@ -799,7 +808,6 @@ namespace {
 	break;
     }
 
-    XML_ParserFree(parser);
     this->Input.swap(pd.measurements);
   }
   
-- 
2.43.0


From 945a4a99d56a37a44321b5402c53ae0d8c966d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:51 +0000
Subject: [PATCH 10/39] fix: hand the parser exactly the bytes that were read

---
 TestingFramework/tfRegressionTest.cpp | 16 ++--------------
 1 file changed, 2 insertions(+), 14 deletions(-)

diff --git a/TestingFramework/tfRegressionTest.cpp b/TestingFramework/tfRegressionTest.cpp
index 9ad5d0f..8cc36ca 100644
--- a/TestingFramework/tfRegressionTest.cpp
+++ b/TestingFramework/tfRegressionTest.cpp
@@ -753,18 +753,8 @@ namespace {
     static const size_t BUFFSIZE = 1024;
     char *buff;
     XML_Parser parser;
-    std::istream::pos_type l, m, size;
     XMLParseData pd;
 
-    
-   
-    // get the size of the file
-    l = this->GetInStream().tellg();
-    this->GetInStream().seekg(0, std::ios::end);
-    m = this->GetInStream().tellg();
-    size = m-l;
-    this->GetInStream().seekg(0, std::ios::beg);
-
 
     parser = XML_ParserCreate("US-ASCII");
 
@@ -793,10 +783,8 @@ namespace {
       if (!this->GetInStream().eof() && !this->GetInStream())
 	throw std::runtime_error("XML:read error");
 
-      if ((done = this->GetInStream().eof()))
-	len = size%BUFFSIZE;
-      else 
-	len = BUFFSIZE;
+      done = this->GetInStream().eof();
+      len = this->GetInStream().gcount();
       
       if (!XML_ParseBuffer(parser, len, done)) 	{
 	std::cerr <<  "XML:Parse error at line " << XML_GetCurrentLineNumber(parser)
-- 
2.43.0


From 75011f71804f69d9325517f8c3cc31c496533f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:01 +0000
Subject: [PATCH 11/39] fix: close the files of a failed run and report
 incomplete output

---
 TestingFramework/tfRegressionTest.cpp | 18 +++++++++++++++---
 TestingFramework/tfRegressionTest.h   |  3 +++
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/TestingFramework/tfRegressionTest.cpp b/TestingFramework/tfRegressionTest.cpp
index 8cc36ca..eca3759 100644
--- a/TestingFramework/tfRegressionTest.cpp
+++ b/TestingFramework/tfRegressionTest.cpp
@@ -65,6 +65,7 @@ namespace testutil {
   }
 
   RegressionTest::~RegressionTest(void) {
+    this->CloseFiles();
     this->ReadXMLInputFree();
   }
   
@@ -182,6 +183,18 @@ const fileutil::PathList &RegressionTest::GetInFileSearchPath(void) const {
     else
       this->ReadXMLInputFree();
 
+    this->GetOutStream().flush();
+    bool written = !this->GetOutStream().fail();
+
+    this->CloseFiles();
+
+    if (!written)
+      throw std::runtime_error("unable to write output file \"" + this->GetOutFileName() + "\"!");
+  }
+
+
+  void RegressionTest::CloseFiles(void) {
+
     if (this->os) {
       delete this->os;
       this->os = 0;
@@ -191,9 +204,6 @@ const fileutil::PathList &RegressionTest::GetInFileSearchPath(void) const {
       delete this->is;
       this->is = 0;
     }
-
-    
-    
   }
 
 
@@ -347,6 +357,8 @@ const fileutil::PathList &RegressionTest::GetInFileSearchPath(void) const {
     if ( !completed )
       {
       // an exception ended the run, this is never a success
+      this->CloseFiles();
+      this->ReadXMLInputFree();
       return ret ? ret : -1;
       }
     else if ( ret != this->GetExpectedReturn() )
diff --git a/TestingFramework/tfRegressionTest.h b/TestingFramework/tfRegressionTest.h
index 494a4d6..7d312de 100644
--- a/TestingFramework/tfRegressionTest.h
+++ b/TestingFramework/tfRegressionTest.h
@@ -211,6 +211,9 @@ namespace testutil {
     /// closes files, called after Test
     virtual void EndMeasurement(void);
 
+    /// closes the files, if they are open
+    void CloseFiles(void);
+
 
     /// a test measurement did not match the current input
     /// measurement. May pring output
-- 
2.43.0


From 9adc1a50188ae724fb9e9a570c4296c166d065f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:03 +0000
Subject: [PATCH 12/39] fix: keep the host name from breaking the header
 comment

---
 TestingFramework/tfRegressionTest.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/TestingFramework/tfRegressionTest.cpp b/TestingFramework/tfRegressionTest.cpp
index eca3759..43fcef8 100644
--- a/TestingFramework/tfRegressionTest.cpp
+++ b/TestingFramework/tfRegressionTest.cpp
@@ -624,8 +624,14 @@ const fileutil::PathList &RegressionTest::GetInFileSearchPath(void) const {
       strcpy(hostname, "unknown host");
     hostname[sizeof(hostname)-1] = '\0'; // a long name may be truncated without it
 #endif
+    // "--" is not allowed in a comment
+    std::string host = hostname;
+    std::string::size_type i;
+    while ((i = host.find("--")) != std::string::npos)
+      host.erase(i, 1);
+
     this->GetOutStream() << "<?xml version=\"1.0\" encoding=\"US-ASCII\"?>" << std::endl;
-    this->GetOutStream() << "<!-- created on "  << hostname << " at " <<ctime(&t) << " -->" << std::endl;
+    this->GetOutStream() << "<!-- created on "  << host << " at " <<ctime(&t) << " -->" << std::endl;
     this->GetOutStream() << "<output>" << std::endl;
   }
 
-- 
2.43.0


From 0232e3aa9152e55ce4b7cb78f137e22882a95c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:48 +0000
Subject: [PATCH 13/39] fix: escape attribute values so that the recorded XML
 is well formed

---
 TestingFramework/tfMeasurement.cpp | 27 +++++++++++++++++++++------
 TestingFramework/tfMeasurement.h   |  6 ++++++
 2 files changed, 27 insertions(+), 6 deletions(-)

diff --git a/TestingFramework/tfMeasurement.cpp b/TestingFramework/tfMeasurement.cpp
index 0211c77..1bea450 100644
--- a/TestingFramework/tfMeasurement.cpp
+++ b/TestingFramework/tfMeasurement.cpp
@@ -141,6 +141,21 @@ namespace testutil {
   }
 
 
+  std::string Measurement::ApplyAttributeEscapeSequences(const std::string &str) const {
+    if (!this->GetApplyEscapeSequences())
+      return str;
+    const std::string escaped = this->ApplyEscapeSequences(str);
+    std::string result;
+    for (std::string::size_type i = 0; i < escaped.length(); ++i) {
+      if (escaped[i] == '"')
+	result.append("&quot;");
+      else
+	result.append(1, escaped[i]);
+    }
+    return result;
+  }
+
+
   void Measurement::Print(std::ostream &os) const {
     this->PrintStartTag(os);
     this->PrintContent(os);
@@ -317,8 +332,8 @@ namespace testutil {
 
   void MeasurementFile::PrintStartTag(std::ostream &os) const {
       
-    os << "<" << this->GetElementTypeName() << " name=\"" << this->GetAttributeName() 
-       << "\" type=\"" << this->GetAttributeType() << "\">";
+    os << "<" << this->GetElementTypeName() << " name=\"" << this->ApplyAttributeEscapeSequences(this->GetAttributeName())
+       << "\" type=\"" << this->ApplyAttributeEscapeSequences(this->GetAttributeType()) << "\">";
   }
   
   
@@ -485,13 +500,13 @@ namespace testutil {
 
      
   void DataMeasurement::PrintStartTag(std::ostream &os) const {
-    os << "<" << this->GetElementTypeName() << " name=\"" << this->GetAttributeName() 
-       << "\" type=\"" << this->GetAttributeType() << "\"";
+    os << "<" << this->GetElementTypeName() << " name=\"" << this->ApplyAttributeEscapeSequences(this->GetAttributeName())
+       << "\" type=\"" << this->ApplyAttributeEscapeSequences(this->GetAttributeType()) << "\"";
 
     if (this->GetAttributeEncoding() != this->GetDefaultAttributeEncoding())
-      os << " encoding=\"" << this->GetAttributeEncoding() << "\"";
+      os << " encoding=\"" << this->ApplyAttributeEscapeSequences(this->GetAttributeEncoding()) << "\"";
     if (this->GetAttributeCompression() != this->GetDefaultAttributeCompression()) {
-      os << " compression=\"" << this->GetAttributeCompression() << "\"";
+      os << " compression=\"" << this->ApplyAttributeEscapeSequences(this->GetAttributeCompression()) << "\"";
     }
     os << ">";
   }
diff --git a/TestingFramework/tfMeasurement.h b/TestingFramework/tfMeasurement.h
index 36fb2ec..90b6951 100644
--- a/TestingFramework/tfMeasurement.h
+++ b/TestingFramework/tfMeasurement.h
@@ -101,6 +101,12 @@ namespace testutil {
     //virtual std::string ReplaceEscapeSequences(const std::string &str);
     
     
+    /// \brief converts what is printed as the value of an attribute
+    ///
+    /// as ApplyEscapeSequences, and any occurence of " is replaced with
+    /// &quot;. Nothing is done if GetApplyEscapeSequences is off
+    std::string ApplyAttributeEscapeSequences(const std::string &str) const;
+
     /// \brief prints the measurement in XML format    
     virtual void Print(std::ostream &os) const;
 
-- 
2.43.0


From e699f24a96fb88e5b2ae46b1a2c94b838a05d1b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:57 +0000
Subject: [PATCH 14/39] fix: keep the whole long and do not read unset values
 in numeric measurements

---
 TestingFramework/tfMeasurement.cpp | 12 ++++++------
 TestingFramework/tfMeasurement.h   |  4 ++--
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/TestingFramework/tfMeasurement.cpp b/TestingFramework/tfMeasurement.cpp
index 1bea450..aa50a08 100644
--- a/TestingFramework/tfMeasurement.cpp
+++ b/TestingFramework/tfMeasurement.cpp
@@ -551,14 +551,14 @@ namespace testutil {
     visitor.Visit(*this);
   }
  
-  int IntegerNumeric::GetValue(void) const {
+  long IntegerNumeric::GetValue(void) const {
     std::istringstream iss(this->GetContent());
-    int v;
+    long v = 0;
     iss >> v;
     return v;    
   }
 
-  void IntegerNumeric::SetValue(int v) {
+  void IntegerNumeric::SetValue(long v) {
     std::ostringstream oss;
     oss << v;
     this->SetContent(oss.str());
@@ -570,7 +570,7 @@ namespace testutil {
  
   float FloatNumeric::GetValue(void) const {
     std::istringstream iss(this->GetContent());
-    float v;
+    float v = 0;
     iss >> v;
     return v;    
   }
@@ -588,7 +588,7 @@ namespace testutil {
  
   double DoubleNumeric::GetValue(void) const {
     std::istringstream iss(this->GetContent());
-    double v;
+    double v = 0;
     iss >> v;
     return v;    
   }
@@ -606,7 +606,7 @@ namespace testutil {
  
   bool BooleanNumeric::GetValue(void) const {
     std::istringstream iss(this->GetContent());
-    bool v;
+    bool v = false;
     iss >> v;
     return v;    
   }
diff --git a/TestingFramework/tfMeasurement.h b/TestingFramework/tfMeasurement.h
index 90b6951..c153d02 100644
--- a/TestingFramework/tfMeasurement.h
+++ b/TestingFramework/tfMeasurement.h
@@ -479,8 +479,8 @@ namespace testutil {
     // see Measurement
     virtual void AcceptVisitor(MeasurementVisitor &visitor);
     
-    int GetValue(void) const;
-    void SetValue(int v); 
+    long GetValue(void) const;
+    void SetValue(long v); 
 
      // see NumericData
     virtual bool IsEqualTolerant(const NumericData &rm, double tol) {
-- 
2.43.0


From 3737c6ff52ebfd42d1d75d9944104e1252cb1f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:04 +0000
Subject: [PATCH 15/39] fix: compute the difference of a tolerant comparison
 without overflow

---
 TestingFramework/tfMeasurement.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/TestingFramework/tfMeasurement.h b/TestingFramework/tfMeasurement.h
index c153d02..fe73784 100644
--- a/TestingFramework/tfMeasurement.h
+++ b/TestingFramework/tfMeasurement.h
@@ -448,7 +448,8 @@ namespace testutil {
     template <class T>
     static bool _IsEqualTolerant(const T &lm, const T &rm, double tol) {
       tol = std::abs(tol);
-      T temp = std::abs(lm - rm);     
+      // the difference may be too large for T
+      long double temp = std::abs(static_cast<long double>(lm) - static_cast<long double>(rm));
       return  temp <= tol*std::abs(lm) ||
 	temp <= tol*std::abs(rm) || 
 	(std::abs(lm) < std::numeric_limits<T>::epsilon() &&
-- 
2.43.0


From 2c9a35013ba2bb56f7046a6802e311589aaeb079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:06 +0000
Subject: [PATCH 16/39] fix: DataMeasurement leaves its data size undefined and
 leaks its cache on assignment

---
 TestingFramework/tfMeasurement.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/TestingFramework/tfMeasurement.cpp b/TestingFramework/tfMeasurement.cpp
index aa50a08..cfcb70c 100644
--- a/TestingFramework/tfMeasurement.cpp
+++ b/TestingFramework/tfMeasurement.cpp
@@ -343,19 +343,18 @@ namespace testutil {
     this->DeleteContentAsData();
   }
 
-  DataMeasurement::DataMeasurement(void) : data(0) {
+  DataMeasurement::DataMeasurement(void) : dataSize(0), data(0) {
     this->encoding = this->GetDefaultAttributeEncoding();
     this->compression = this->GetDefaultAttributeCompression();
   }
 
   DataMeasurement::DataMeasurement(const DataMeasurement &m) 
-    : Measurement(m), encoding(m.encoding), compression(m.compression), data(0){
+    : Measurement(m), encoding(m.encoding), compression(m.compression), dataSize(0), data(0){
   }
     
   DataMeasurement &DataMeasurement::operator=(const DataMeasurement &m) {
     this->Measurement::operator=(m);
-    this->data = 0;
-    this->dataSize = 0;
+    this->DeleteContentAsData();
     this->encoding = m.encoding;
     this->compression = m.compression;
     return *this;
-- 
2.43.0


From a510b6cc3824a999b9855a8b73812071d5746e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:30 +0000
Subject: [PATCH 17/39] fix: keep the content and the decoded data of a
 measurement in step

---
 TestingFramework/tfMeasurement.cpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/TestingFramework/tfMeasurement.cpp b/TestingFramework/tfMeasurement.cpp
index cfcb70c..05eea81 100644
--- a/TestingFramework/tfMeasurement.cpp
+++ b/TestingFramework/tfMeasurement.cpp
@@ -367,6 +367,7 @@ namespace testutil {
 
   void DataMeasurement::SetAttributeEncoding(const std::string &_encoding) {
     this->encoding = _encoding;
+    this->DeleteContentAsData();
   }
      
   const std::string &DataMeasurement::GetAttributeEncoding(void) const {
@@ -379,6 +380,7 @@ namespace testutil {
   
   void DataMeasurement::SetAttributeCompression(const std::string &_compression) {
     this->compression = _compression;
+    this->DeleteContentAsData();
   }
      
   const std::string &DataMeasurement::GetAttributeCompression(void)const {
@@ -448,14 +450,18 @@ namespace testutil {
   }
 
   void DataMeasurement::SetContentAsData(const void *_data, size_t size) {
-    this->DeleteContentAsData();
-    this->data = malloc(size);
+    // _data may be our own data
+    void *copy = malloc(size ? size : 1);
 
-    if (!this->data) 
+    if (!copy) 
       throw std::bad_alloc();
-    this->dataSize = size;
 
-    memcpy(this->data, _data, size);
+    if (size)
+      memcpy(copy, _data, size);
+
+    this->DeleteContentAsData();
+    this->data = copy;
+    this->dataSize = size;
     
     // encode the data to be moved into the content
     if (this->GetAttributeCompression() != "none") {
@@ -464,7 +470,9 @@ namespace testutil {
     }
 
     if (this->GetAttributeEncoding() == "none") {
-      
+
+      this->SetContent(std::string(static_cast<const char*>(this->data), this->dataSize));
+
     } else if (this->GetAttributeEncoding() == "base64") {
       Base64 encoder;
       
-- 
2.43.0


From a87f8ef6825fe6a092875962de962845d7ca966e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:38 +0000
Subject: [PATCH 18/39] fix: load measurement files without leaks and never
 treat a missing file as equal

---
 TestingFramework/tfMeasurement.cpp | 60 +++++++++---------------------
 TestingFramework/tfMeasurement.h   |  2 +
 2 files changed, 19 insertions(+), 43 deletions(-)

diff --git a/TestingFramework/tfMeasurement.cpp b/TestingFramework/tfMeasurement.cpp
index 05eea81..66a5328 100644
--- a/TestingFramework/tfMeasurement.cpp
+++ b/TestingFramework/tfMeasurement.cpp
@@ -38,6 +38,7 @@
 #include <fstream>
 #include <stdexcept>
 #include <sstream>
+#include <memory>
 #include <assert.h>
 #include <cstring>
 
@@ -252,52 +253,18 @@ namespace testutil {
       mode |= std::ios::binary;// this actually doesn't matter since we read with read
 
     std::ifstream is(this->GetFileName().c_str(), mode);
-    std::ifstream::pos_type l, m, size;
-    char *buff;
+    std::string buff;
 
     if (!is) {
       std::cerr << "error opening file \"" << this->GetFileName() << "\"." << std::endl;
-      return new PlainText();
+      return 0;
     }
       
 
-    // get the size of the file
-    l = is.tellg();
-    is.seekg(0, std::ios::end);
-    m = is.tellg();
-    size = m-l;
-    is.seekg(0, std::ios::beg);
-
-
-    buff = static_cast<char*>(malloc(size));
-    if (!buff)
-      throw std::bad_alloc();
-
-    if (binary) {
-      is.read(buff, size);
-    } else {
-      assert(sizeof(char) == 1);
-      // slow way to read but need the conversion, and it may be better than rescanning the input for getline
-      char *tbuff = buff;
-      char c;
-      size = 0;
-      while (is.get(c)) {
-	*tbuff++ = c;
-	size += 1;
-      }	
-    }
-
-    DataMeasurement *dm = CreateDataMeasurement(this->GetAttributeType());
-    if (!dm) {
-      std::cerr << "Unknown measurement type \"" << this->GetAttributeType() << "\"." << std::endl;
-      dm = new PlainText();
-    }
-    dm->SetContentAsData(buff, size);
-    dm->SetAttributeName(this->GetAttributeName());
-
-
-    char c=0;
-    is.get(c);	// this should cause and EOF
+    // the size of the file may change while it is read, so read until EOF
+    char c;
+    while (is.get(c))
+      buff.append(1, c);
 
     ios_base::iostate state = is.exceptions();
     if (state & ios_base::badbit) cerr << "throws for bad";
@@ -309,7 +276,13 @@ namespace testutil {
     }
     
 
-    free(buff);
+    DataMeasurement *dm = CreateDataMeasurement(this->GetAttributeType());
+    if (!dm) {
+      std::cerr << "Unknown measurement type \"" << this->GetAttributeType() << "\"." << std::endl;
+      dm = new PlainText();
+    }
+    dm->SetContentAsData(buff.data(), buff.length());
+    dm->SetAttributeName(this->GetAttributeName());
     return dm;
     
   }
@@ -318,9 +291,10 @@ namespace testutil {
     if (this->GetAttributeName() != m.GetAttributeName() ||
 	this->GetAttributeType() != m.GetAttributeType())
       return false;
-    DataMeasurement *dm = Load();
+    std::unique_ptr<DataMeasurement> dm(Load());
+    if (!dm) // there is nothing to compare
+      return false;
     bool v = (m == *dm); // switch so if the are both file we can do it again
-    delete dm;
 
     // TODO
     //
diff --git a/TestingFramework/tfMeasurement.h b/TestingFramework/tfMeasurement.h
index fe73784..d772d46 100644
--- a/TestingFramework/tfMeasurement.h
+++ b/TestingFramework/tfMeasurement.h
@@ -219,6 +219,8 @@ namespace testutil {
     /// This function loads the data into memory and the copies it
     /// into the DataMeasurement object. 
     ///
+    /// Returns 0 if the file can not be opened.
+    ///
     /// \note the user must delete this object with delete to free the memory.
     DataMeasurement *Load(void);
 
-- 
2.43.0


From 747ba03822b1cf3b99bf0c6c45d2a351cfd73e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:39 +0000
Subject: [PATCH 19/39] fix: index the base64 table with unsigned characters

---
 TestingFramework/tfBase64.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/TestingFramework/tfBase64.cpp b/TestingFramework/tfBase64.cpp
index a608417..f9a32ea 100644
--- a/TestingFramework/tfBase64.cpp
+++ b/TestingFramework/tfBase64.cpp
@@ -132,7 +132,7 @@ namespace testutil {
     size_t i = 0;     // index into encode input
     int byteNumber = 0;  // 0,1,3 indicates how to decode
     size_t bytesRead = 0;
-    char byte;    
+    unsigned char byte;    
     bool padded = false;
 
     while (i < input.length()) {	  
@@ -184,7 +184,7 @@ namespace testutil {
     int byteNumber = 0; // 0,1,3 indicates how to decode
     size_t bytesRead = 0;
     char buffer[4];
-    char byte;
+    unsigned char byte;
     bool padded = false;
 	
 
-- 
2.43.0


From 01ec8d1af5c01656dca2ad3034b05177ea22322d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:41 +0000
Subject: [PATCH 20/39] fix: base64 line breaks and unused trailing characters
 of the encoding

---
 TestingFramework/tfBase64.cpp | 38 +++++++++++++++++------------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/TestingFramework/tfBase64.cpp b/TestingFramework/tfBase64.cpp
index f9a32ea..290494c 100644
--- a/TestingFramework/tfBase64.cpp
+++ b/TestingFramework/tfBase64.cpp
@@ -82,10 +82,7 @@ namespace testutil {
   }
 
   std::string Base64::Encode(const void *_input, size_t numBytes) {
-    std::string::size_type numChars = ((numBytes+2)/3)*4;
-    if (this->addNewLines)	  
-      numChars += numChars/72;
-    std::string output(numChars, '\0');
+    std::string output;
     const unsigned char *input = static_cast<const unsigned char *>(_input);
 	
 	
@@ -95,34 +92,37 @@ namespace testutil {
     // [xxAAAAAA] [xxBBBBBB] [xxCCCCCC] [xxDDDDDD]
     // bytes are considered to be zero when absent.
     // the four bytes are then mapped to common ASCII symbols
-    size_t i = 0; // index into the output base64
+    size_t lineLength = 0; // number of chars in the current line
     size_t j = 0; // index into the input
 	
       
     while(numBytes >= 3) {
-      output[i++] = base64chars[(input[j] >> 2)];
-      output[i++] = base64chars[((input[j] << 4) & 0x30) | (input[j+1] >> 4)];
-      output[i++] = base64chars[((input[j+1] << 2) & 0x3c) | (input[j+2] >> 6)];
-      output[i++] = base64chars[(input[j+2] & 0x3f)];
+      output += base64chars[(input[j] >> 2)];
+      output += base64chars[((input[j] << 4) & 0x30) | (input[j+1] >> 4)];
+      output += base64chars[((input[j+1] << 2) & 0x3c) | (input[j+2] >> 6)];
+      output += base64chars[(input[j+2] & 0x3f)];
       j += 3;
 	  
-      if (this->addNewLines && !(i%72))
-	output[i++] = '\n';
+      lineLength += 4;
+      if (this->addNewLines && lineLength == 72 && numBytes > 3) {
+	output += '\n';
+	lineLength = 0;
+      }
 	  
       numBytes -= 3;
     }
 	
     // pad the output
     if (numBytes == 2) {	
-      output[i++] = base64chars[(input[j] >> 2)];
-      output[i++] = base64chars[((input[j] << 4) & 0x30) | (input[j+1] >> 4)];
-      output[i++] = base64chars[((input[j+1] << 2) & 0x3c)];
-      output[i++] = '=';
+      output += base64chars[(input[j] >> 2)];
+      output += base64chars[((input[j] << 4) & 0x30) | (input[j+1] >> 4)];
+      output += base64chars[((input[j+1] << 2) & 0x3c)];
+      output += '=';
     } else if (numBytes == 1) {	
-      output[i++] = base64chars[(input[j] >> 2)];
-      output[i++] = base64chars[((input[j] << 4) & 0x30)];
-      output[i++] = '=';
-      output[i++] = '=';
+      output += base64chars[(input[j] >> 2)];
+      output += base64chars[((input[j] << 4) & 0x30)];
+      output += '=';
+      output += '=';
     } 
 	
     return output;
-- 
2.43.0


From 82e6509e3ed5a5329387b4ec2ecf5071dfbf81df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:42 +0000
Subject: [PATCH 21/39] fix: decode padded base64, and report the number of
 decoded bytes

---
 TestingFramework/tfBase64.cpp | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/TestingFramework/tfBase64.cpp b/TestingFramework/tfBase64.cpp
index 290494c..e4ba126 100644
--- a/TestingFramework/tfBase64.cpp
+++ b/TestingFramework/tfBase64.cpp
@@ -141,6 +141,9 @@ namespace testutil {
       if (base64bits[ptrdiff_t(byte)] <= 64) {
 	    
 	if (base64bits[ptrdiff_t(byte)] == PaddingBits) {
+	  // only the last one or two chars of a group can be padding
+	  if (byteNumber < 2)
+	    return 0;
 	  padded = true;	      
 	  byteNumber++;
 	} else if (padded) {
@@ -173,7 +176,8 @@ namespace testutil {
     if (byteNumber != 0)
       return 0;
 
-    return bytesRead;
+    // each char has 6 bits of data
+    return bytesRead*3/4;
   }
       
   size_t Base64::Decode(const std::string &input, void *_output) {
@@ -182,7 +186,6 @@ namespace testutil {
     size_t i = 0; // index into encode input
     size_t j = 0; // index to output
     int byteNumber = 0; // 0,1,3 indicates how to decode
-    size_t bytesRead = 0;
     char buffer[4];
     unsigned char byte;
     bool padded = false;
@@ -199,20 +202,20 @@ namespace testutil {
 	    padded = true;	 
 	    if (byteNumber == 2) {
 	      output[j++] = buffer[0] << 2 | buffer[1] >> 4;
-	      output[j++] = buffer[1] << 4;
 	    } else if (byteNumber == 3) {
 	      output[j++] = buffer[0] << 2 | buffer[1] >> 4;
 	      output[j++] = buffer[1] << 4 | buffer[2] >> 2;
-	      output[j++] = buffer[2] << 6;
 	    } else {
-	      std::runtime_error("invalid base64 string, improper termination");
+	      throw std::runtime_error("invalid base64 string, improper termination");
 	    }
 	  }
 	  byteNumber++;
 	      
 	  // padding finishedm we are done
-	  if (byteNumber == 4)
+	  if (byteNumber == 4) {
+	    byteNumber = 0;
 	    break;
+	  }
 
 	} else if (padded) {
 	  // the input was improperly terminated
@@ -221,7 +224,6 @@ namespace testutil {
 	  // have a byte with data..
 	  // look up in inverse table to get the bits
 	  buffer[byteNumber++] = base64bits[ptrdiff_t(byte)];	      
-	  bytesRead++;
 
 	  if (byteNumber == 4){
 	    // The basic idea is that the four bytes will get reconstituted
@@ -233,7 +235,6 @@ namespace testutil {
 	    output[j++] = buffer[1] << 4 | buffer[2] >> 2;
 	    output[j++] = buffer[2] << 6 | buffer[3];
 	    byteNumber = 0;
-	    bytesRead--;
 	  }
 	      
 	}
@@ -253,7 +254,7 @@ namespace testutil {
       throw std::runtime_error("invalid base64 string, unexpected end");
 	  
 
-    return bytesRead;
+    return j;
   }
 
 
-- 
2.43.0


From 14b5ac9ac5d668acece57b4cd9a79fb04e3b5ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:44 +0000
Subject: [PATCH 22/39] fix: space is base64 white space, backspace is not

---
 TestingFramework/tfBase64.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/TestingFramework/tfBase64.cpp b/TestingFramework/tfBase64.cpp
index e4ba126..df3ca25 100644
--- a/TestingFramework/tfBase64.cpp
+++ b/TestingFramework/tfBase64.cpp
@@ -274,9 +274,9 @@ namespace testutil {
       
   // table to convert base64 to 6 bits
   const unsigned char Base64::base64bits[256] = {
-    255,255,255,255,255,255,255,255,254,254,254,254,254,254,255,255, // 16
+    255,255,255,255,255,255,255,255,255,254,254,254,254,254,255,255, // 16
     255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255, // 32     
-    255,255,255,255,255,255,255,255,255,255,255, 62,255,255,255, 63, // 48
+    254,255,255,255,255,255,255,255,255,255,255, 62,255,255,255, 63, // 48
      52, 53, 54, 55, 56, 57, 58, 59, 60, 61,255,255,255, 64,255,255, // 64
     255,  0,  1,  2,  3,  4,  5,  6,  7,  8,  9, 10, 11, 12, 13, 14, // 80
      15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25,255,255,255,255,255, // 96     
-- 
2.43.0


From c6fb359eae949e8370940fbac032c1d1fbc0bfa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:46 +0000
Subject: [PATCH 23/39] fix: do not look behind the end of the line hash table

---
 TestingFramework/tfDiff.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TestingFramework/tfDiff.cpp b/TestingFramework/tfDiff.cpp
index 88bb8a7..9f12a8f 100644
--- a/TestingFramework/tfDiff.cpp
+++ b/TestingFramework/tfDiff.cpp
@@ -433,7 +433,7 @@ namespace testutil {
 	  
 	for (size_t j = hindex; j < 2; ++j) {
 	  hash_table::iterator i = hash[j].begin();
-	  while(!hash[j].empty()  && i->first == v.first) {
+	  while(i != hash[j].end()  && i->first == v.first) {
 	    if (!str[hindex]->substr(data.lines[hindex][v.second].lindex, data.lines[hindex][v.second].length).compare(
 		str[j]->substr(data.lines[j][i->second].lindex, data.lines[j][i->second].length))) {	      
 	      data.vec[j][i->second] = id;	
-- 
2.43.0


From 8f35bf3ba6583aea6774b27f2b27a2990d0efa45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:48 +0000
Subject: [PATCH 24/39] fix: check that a range has lines before reading them

---
 TestingFramework/tfDiff.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/TestingFramework/tfDiff.cpp b/TestingFramework/tfDiff.cpp
index 9f12a8f..302399a 100644
--- a/TestingFramework/tfDiff.cpp
+++ b/TestingFramework/tfDiff.cpp
@@ -218,8 +218,8 @@ namespace testutil {
       assert(xend - xbegin != 0 || yend - ybegin != 0); 
       
       // can't begin or end with a 'snake'
-      assert(xvec[xbegin] != yvec[ybegin] || xend - xbegin == 0 || yend - ybegin == 0);
-      assert(xvec[xend-1] != yvec[yend-1] || xend - xbegin == 0 || yend - ybegin == 0);
+      assert(xend - xbegin == 0 || yend - ybegin == 0 || xvec[xbegin] != yvec[ybegin]);
+      assert(xend - xbegin == 0 || yend - ybegin == 0 || xvec[xend-1] != yvec[yend-1]);
 
       
       if (xend - xbegin == 0) {
@@ -241,7 +241,7 @@ namespace testutil {
 
 	  // eat what 'snake we can in the middle
 	  // and get the operations for the two halves
-	  if (xvec[part.xmid-1] == yvec[part.ymid-1] && part.xmid != xbegin && part.ymid != ybegin) {
+	  if (part.xmid != xbegin && part.ymid != ybegin && xvec[part.xmid-1] == yvec[part.ymid-1]) {
 	    l2 = GenerateEditList(part.xmid, xend, part.ymid, yend, data);
 	    // eat it
 	    while(part.xmid != xbegin && part.ymid != ybegin && xvec[part.xmid - 1] == yvec[part.ymid-1])
-- 
2.43.0


From d0b4e4fd21f9feff2ddd516e37847147ae558a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:49 +0000
Subject: [PATCH 25/39] fix: release the command and the process of the pipe
 tool

---
 TestingFramework/tfPipeToXML.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/TestingFramework/tfPipeToXML.cxx b/TestingFramework/tfPipeToXML.cxx
index 4e7a733..43adb0b 100644
--- a/TestingFramework/tfPipeToXML.cxx
+++ b/TestingFramework/tfPipeToXML.cxx
@@ -40,6 +40,7 @@ protected:
     itksysProcess* kp =  itksysProcess_New();
 
     itksysProcess_SetCommand(kp, cmd);
+    delete [] cmd; // the process has a copy
 
   
     itksysProcess_Execute(kp);
@@ -52,8 +53,6 @@ protected:
   
     itksysProcess_WaitForExit(kp, 0);
 
-    this->MeasurementTextPlain( outputString, "stdout" );
-
     switch (itksysProcess_GetState(kp))
       {
       case itksysProcess_State_Starting:
@@ -84,6 +83,7 @@ protected:
     
     itksysProcess_Delete(kp);
 
+    this->MeasurementTextPlain( outputString, "stdout" );
     
     return ret;
 
-- 
2.43.0


From 33b43d8f6f7c41abf1e1bba65b2936bee47e4c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:54 +0000
Subject: [PATCH 26/39] fix: compare the origin of the baseline with the test
 image

---
 itktf/itktfCompareVisitor.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/itktf/itktfCompareVisitor.cxx b/itktf/itktfCompareVisitor.cxx
index aca3b0d..6aae6f7 100644
--- a/itktf/itktfCompareVisitor.cxx
+++ b/itktf/itktfCompareVisitor.cxx
@@ -120,7 +120,7 @@ int CompareVisitor::RegressionTestImage (const char *testImageFilename,
   // todo change to some kind of fuzzy a test.
   ImageType::PointType baselineOrigin = baselineReader->GetOutput()->GetOrigin();
   ImageType::PointType testOrigin = testReader->GetOutput()->GetOrigin();
-  if ( baselineOrigin != baselineOrigin )
+  if ( baselineOrigin != testOrigin )
     {
     return 1;
     }
-- 
2.43.0


From 839c74d85ba207a0432323d44d0fd166cafd3545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:00 +0000
Subject: [PATCH 27/39] fix: apply the number of pixels tolerance only once

---
 itktf/itktfCompareVisitor.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/itktf/itktfCompareVisitor.cxx b/itktf/itktfCompareVisitor.cxx
index 6aae6f7..f71c8e7 100644
--- a/itktf/itktfCompareVisitor.cxx
+++ b/itktf/itktfCompareVisitor.cxx
@@ -136,7 +136,8 @@ int CompareVisitor::RegressionTestImage (const char *testImageFilename,
                                            radiusTolerance );
   
 
-  return (status > numberOfPixelsTolerance) ? 1 : 0;
+  // CompareImage has already applied the number of pixels tolerance
+  return status ? 1 : 0;
 }
 
 }
-- 
2.43.0


From 240c9fa79026969bdb46457e03492255af61669b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:31 +0000
Subject: [PATCH 28/39] fix: run the per-thread work of the difference filter
 on current ITK versions

---
 itktf/itktfDifferenceImageFilter.h   | 6 +++++-
 itktf/itktfDifferenceImageFilter.txx | 9 +++++++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/itktf/itktfDifferenceImageFilter.h b/itktf/itktfDifferenceImageFilter.h
index f8f550c..1cbef22 100644
--- a/itktf/itktfDifferenceImageFilter.h
+++ b/itktf/itktfDifferenceImageFilter.h
@@ -39,7 +39,11 @@ template<typename T>
 itk::VariableLengthVector<T>
 ZeroValue( const itk::VariableLengthVector<T> &v )
 {
+#if ITK_VERSION_MAJOR >= 4
+  return  itk::NumericTraits<itk::VariableLengthVector<T> >::ZeroValue(v); 
+#else
   return  itk::NumericTraits<itk::VariableLengthVector<T> >::Zero(v); 
+#endif
 }
 
 template<typename TPixelType>
@@ -160,7 +164,7 @@ protected:
    * \sa ImageToImageFilter::ThreadedGenerateData(),
    *     ImageToImageFilter::GenerateData()  */
   void ThreadedGenerateData(const OutputImageRegionType& threadRegion,
-                            int threadId);
+                            ThreadIdType threadId);
 
   void BeforeThreadedGenerateData();
   void AfterThreadedGenerateData();
diff --git a/itktf/itktfDifferenceImageFilter.txx b/itktf/itktfDifferenceImageFilter.txx
index 79ecd92..97c38ba 100644
--- a/itktf/itktfDifferenceImageFilter.txx
+++ b/itktf/itktfDifferenceImageFilter.txx
@@ -49,6 +49,11 @@ DifferenceImageFilter<TInputImage, TOutputImage>
   m_TotalMagnitude = NumericTraits<ScalarRealType>::Zero;
   m_NumberOfPixelsWithDifferences = 0;
   m_IgnoreBoundaryPixels = false;
+
+#if ITK_VERSION_MAJOR >= 5
+  // the work is done in ThreadedGenerateData
+  this->DynamicMultiThreadingOff();
+#endif
 }
 
 //----------------------------------------------------------------------------
@@ -111,7 +116,7 @@ DifferenceImageFilter<TInputImage, TOutputImage>
 template <class TInputImage, class TOutputImage>
 void
 DifferenceImageFilter<TInputImage, TOutputImage>
-::ThreadedGenerateData(const OutputImageRegionType &threadRegion, int threadId)
+::ThreadedGenerateData(const OutputImageRegionType &threadRegion, ThreadIdType threadId)
 {
   typedef ConstNeighborhoodIterator<InputImageType>   SmartIterator;
   typedef ImageRegionConstIterator<InputImageType>    InputIterator;
@@ -197,7 +202,7 @@ DifferenceImageFilter<TInputImage, TOutputImage>
           // Store the minimum difference value in the output image.
           out.Set( static_cast<OutputPixelType>(minimumDifference) );
           // Update difference image statistics.
-          m_ThreadMagnitudeSum[threadId] += vcl_sqrt( minimumMagnitude2 );
+          m_ThreadMagnitudeSum[threadId] += std::sqrt( minimumMagnitude2 );
           m_ThreadNumberOfPixels[threadId]++;
           }
         else
-- 
2.43.0


From ea219b9256fc063b7518a4d4d2c5190cab1907b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:11 +0000
Subject: [PATCH 29/39] fix: state how the direction of the reported image
 slice is collapsed

---
 itktf/itktfDifferenceVisitor.cxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/itktf/itktfDifferenceVisitor.cxx b/itktf/itktfDifferenceVisitor.cxx
index 80d378a..844be18 100644
--- a/itktf/itktfDifferenceVisitor.cxx
+++ b/itktf/itktfDifferenceVisitor.cxx
@@ -110,6 +110,9 @@ int ImageThing( typename ImageType::ConstPointer image,
   typename ExtractType::Pointer extract = ExtractType::New();
   extract->SetInput( image );
   extract->SetExtractionRegion( region );
+#if ITK_VERSION_MAJOR >= 4
+  extract->SetDirectionCollapseToIdentity();
+#endif
 
   typename RescaleType::Pointer rescale = RescaleType::New();
   rescale->SetOutputMinimum( itk::NumericTraits<OutputPixelType>::NonpositiveMin() );
-- 
2.43.0


From 74c8cee4a468144f8ce6373d8b67c54aa16763b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:27 +0000
Subject: [PATCH 30/39] fix: write image difference reports to the configured
 output

---
 itktf/itktfDifferenceVisitor.cxx | 46 ++++++++++++++++++--------------
 itktf/itktfDifferenceVisitor.h   |  3 ++-
 2 files changed, 28 insertions(+), 21 deletions(-)

diff --git a/itktf/itktfDifferenceVisitor.cxx b/itktf/itktfDifferenceVisitor.cxx
index 844be18..7f36caa 100644
--- a/itktf/itktfDifferenceVisitor.cxx
+++ b/itktf/itktfDifferenceVisitor.cxx
@@ -62,7 +62,8 @@ void DifferenceVisitor::Visit(testutil::MeasurementFile &m)
                          *baseline, 
                          m_IntensityTolerance,
                          m_NumberOfPixelsTolerance, 
-                         m_RadiusTolerance ) ;
+                         m_RadiusTolerance,
+                         this->GetOutStream() ) ;
     }
   else 
     {
@@ -73,7 +74,8 @@ void DifferenceVisitor::Visit(testutil::MeasurementFile &m)
 template< typename ImageType >
 int ImageThing( typename ImageType::ConstPointer image, 
                 const  fileutil::PathName &fileName, 
-                const std::string &attributeName) 
+                const std::string &attributeName,
+                std::ostream &os) 
 {
   
   typedef unsigned char                  OutputPixelType;
@@ -157,7 +159,7 @@ int ImageThing( typename ImageType::ConstPointer image,
     outputMeasurement.SetAttributeType("image/png");
     outputMeasurement.SetAttributeName("Difference " + attributeName );
     outputMeasurement.SetContent(  fileName.GetPathName() );
-    std::cout << outputMeasurement << std::endl;
+    os << outputMeasurement << std::endl;
 
     return 0;  
 }
@@ -168,7 +170,8 @@ int DifferenceVisitor::DifferenceTestImage (testutil::MeasurementFile &testMeasu
                                             testutil::MeasurementFile &baselineMeasurement,
                                             double intensityTolerance,
                                             unsigned int numberOfPixelsTolerance, 
-                                            unsigned int radiusTolerance )
+                                            unsigned int radiusTolerance,
+                                            std::ostream &os )
 {
   // Use the factory mechanism to read the test and baseline files and
   // convert them to double
@@ -204,13 +207,13 @@ int DifferenceVisitor::DifferenceTestImage (testutil::MeasurementFile &testMeasu
     strstream << baselineSize;
     statusMeasurement.SetAttributeName("Baseline Size "  + testMeasurement.GetAttributeName() );
     statusMeasurement.SetContent( strstream.str() );
-    std::cout << statusMeasurement << std::endl;
+    os << statusMeasurement << std::endl;
 
     strstream.str( "" );
     strstream << testSize;
     statusMeasurement.SetAttributeName("Test ImageSize "  + testMeasurement.GetAttributeName() );
     statusMeasurement.SetContent( strstream.str() );
-    std::cout << statusMeasurement << std::endl;
+    os << statusMeasurement << std::endl;
     
     return 1;
     }
@@ -228,13 +231,13 @@ int DifferenceVisitor::DifferenceTestImage (testutil::MeasurementFile &testMeasu
     strstream << baselineSpacing;
     statusMeasurement.SetAttributeName("Baseline Spacing "  + testMeasurement.GetAttributeName() );
     statusMeasurement.SetContent( strstream.str() );
-    std::cout << statusMeasurement << std::endl;
+    os << statusMeasurement << std::endl;
 
     strstream.str( "" );
     strstream << testSpacing;
     statusMeasurement.SetAttributeName("Test Spacing "  + testMeasurement.GetAttributeName() );
     statusMeasurement.SetContent( strstream.str() );
-    std::cout << statusMeasurement << std::endl;    
+    os << statusMeasurement << std::endl;    
     }
 
   //////////////////////////////////////////////////////
@@ -250,13 +253,13 @@ int DifferenceVisitor::DifferenceTestImage (testutil::MeasurementFile &testMeasu
     strstream << baselineOrigin;
     statusMeasurement.SetAttributeName("Baseline Origin "  + testMeasurement.GetAttributeName() );
     statusMeasurement.SetContent( strstream.str() );
-    std::cout << statusMeasurement << std::endl;
+    os << statusMeasurement << std::endl;
 
     strstream.str( "" );
     strstream << testOrigin;
     statusMeasurement.SetAttributeName("Test Origin "  + testMeasurement.GetAttributeName() );
     statusMeasurement.SetContent( strstream.str() );
-    std::cout << statusMeasurement << std::endl;    
+    os << statusMeasurement << std::endl;    
     }
   
   //////////////////////////////////////////////////////
@@ -271,11 +274,11 @@ int DifferenceVisitor::DifferenceTestImage (testutil::MeasurementFile &testMeasu
     testutil::StringText statusMeasurement;
     statusMeasurement.SetAttributeName("Baseline PixelType "  + testMeasurement.GetAttributeName() );
     statusMeasurement.SetContent( baselineReader->GetImageIO()->GetPixelTypeAsString( baselinePixelType ) );
-    std::cout << statusMeasurement << std::endl;
+    os << statusMeasurement << std::endl;
     
     statusMeasurement.SetAttributeName("Test PixelType "  + testMeasurement.GetAttributeName() );
     statusMeasurement.SetContent( testReader->GetImageIO()->GetPixelTypeAsString( testPixelType ) );
-    std::cout << statusMeasurement << std::endl;
+    os << statusMeasurement << std::endl;
     }
 
   itk::ImageIOBase::IOComponentType baselineComponentType = baselineReader->GetImageIO()->GetComponentType();
@@ -287,11 +290,11 @@ int DifferenceVisitor::DifferenceTestImage (testutil::MeasurementFile &testMeasu
     testutil::StringText statusMeasurement;
     statusMeasurement.SetAttributeName("Baseline ComponentType "  + testMeasurement.GetAttributeName() );
     statusMeasurement.SetContent( baselineReader->GetImageIO()->GetComponentTypeAsString( baselineComponentType ) );
-    std::cout << statusMeasurement << std::endl;
+    os << statusMeasurement << std::endl;
     
     statusMeasurement.SetAttributeName("Test ComponentType "  + testMeasurement.GetAttributeName() );
     statusMeasurement.SetContent( testReader->GetImageIO()->GetComponentTypeAsString( testComponentType ) );
-    std::cout << statusMeasurement << std::endl;
+    os << statusMeasurement << std::endl;
     }
 
   unsigned int baselineNumberOfComponents = baselineReader->GetImageIO()->GetNumberOfComponents();
@@ -303,11 +306,11 @@ int DifferenceVisitor::DifferenceTestImage (testutil::MeasurementFile &testMeasu
     testutil::IntegerNumeric statusMeasurement;
     statusMeasurement.SetAttributeName("Baseline Number Of Components "  + testMeasurement.GetAttributeName() );
     statusMeasurement.SetValue( baselineNumberOfComponents );
-    std::cout << statusMeasurement << std::endl;
+    os << statusMeasurement << std::endl;
     
     statusMeasurement.SetAttributeName("Test Number Of Components "  + testMeasurement.GetAttributeName() );
     statusMeasurement.SetValue( testNumberOfComponents );
-    std::cout << statusMeasurement << std::endl;
+    os << statusMeasurement << std::endl;
     }
 
   // todo Check the number of components and the type to determing the
@@ -331,22 +334,25 @@ int DifferenceVisitor::DifferenceTestImage (testutil::MeasurementFile &testMeasu
   testutil::DoubleNumeric statusMeasurement;
   statusMeasurement.SetValue( static_cast<double>(status) );
   statusMeasurement.SetAttributeName("ImageError "  + testMeasurement.GetAttributeName() );
-  std::cout << statusMeasurement << std::endl;
+  os << statusMeasurement << std::endl;
 
   fileutil::PathName diffName = fileutil::PathName(ITK_REGRESSION_OUTPUT).Append(testImageFilename.Tail().GetPathName()+".diff.png");
   ImageThing<ImageType>( diff->GetOutput(), 
                          diffName, 
-                         testMeasurement.GetAttributeName());
+                         testMeasurement.GetAttributeName(),
+                         os );
     
   fileutil::PathName baselineName = fileutil::PathName(ITK_REGRESSION_OUTPUT).Append(testImageFilename.Tail().GetPathName()+".base.png");  
   ImageThing<ImageType>( baselineReader->GetOutput(), 
                          baselineName, 
-                         testMeasurement.GetAttributeName());
+                         testMeasurement.GetAttributeName(),
+                         os );
   
   fileutil::PathName testName = fileutil::PathName(ITK_REGRESSION_OUTPUT).Append(testImageFilename.Tail().GetPathName()+".test.png"); 
   ImageThing<ImageType>( testReader->GetOutput(), 
                          testName, 
-                         testMeasurement.GetAttributeName());
+                         testMeasurement.GetAttributeName(),
+                         os );
   
   return (status > numberOfPixelsTolerance) ? 1 : 0;
 }
diff --git a/itktf/itktfDifferenceVisitor.h b/itktf/itktfDifferenceVisitor.h
index 788ea5c..4d25a37 100644
--- a/itktf/itktfDifferenceVisitor.h
+++ b/itktf/itktfDifferenceVisitor.h
@@ -45,7 +45,8 @@ protected:
                                   testutil::MeasurementFile &baselineMeasurement,
                                   double intensityTolerance,
                                   unsigned int numberOfPixelsTolerance, 
-                                  unsigned int radiusTolerance );
+                                  unsigned int radiusTolerance,
+                                  std::ostream &os );
 
   
   double m_IntensityTolerance;
-- 
2.43.0


From 6f18e3f930faffed8e4e32cc7f7d6123ecd42e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:56 +0000
Subject: [PATCH 31/39] fix: compare the pixels of images with different
 geometry without an exception

---
 itktf/itktfDifferenceImageFilter.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/itktf/itktfDifferenceImageFilter.h b/itktf/itktfDifferenceImageFilter.h
index 1cbef22..89a82e2 100644
--- a/itktf/itktfDifferenceImageFilter.h
+++ b/itktf/itktfDifferenceImageFilter.h
@@ -166,6 +166,11 @@ protected:
   void ThreadedGenerateData(const OutputImageRegionType& threadRegion,
                             ThreadIdType threadId);
 
+#if ITK_VERSION_MAJOR >= 5
+  // only the pixels are compared, the images may have a different geometry
+  void VerifyInputInformation() const override {}
+#endif
+
   void BeforeThreadedGenerateData();
   void AfterThreadedGenerateData();
  
-- 
2.43.0


From 64f93032a342502d5ead9e3172495a9f94edd465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:30 +0000
Subject: [PATCH 32/39] fix: compare only the given region of both images

---
 itktf/itktfRegression.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/itktf/itktfRegression.h b/itktf/itktfRegression.h
index 74d7739..5ad3d70 100644
--- a/itktf/itktfRegression.h
+++ b/itktf/itktfRegression.h
@@ -262,14 +262,17 @@ public:
       // extract only the specified region
       typedef itk::ExtractImageFilter<ImageType, ImageType> ExtractImageFilter;
       typename ExtractImageFilter::Pointer extractor = ExtractImageFilter::New();
-      extractor->SetExtractionRegion( testImage->GetLargestPossibleRegion() );
+      extractor->SetExtractionRegion( region );
       extractor->SetInput( baselineImage );
     
+      typename ExtractImageFilter::Pointer testExtractor = ExtractImageFilter::New();
+      testExtractor->SetExtractionRegion( region );
+      testExtractor->SetInput( testImage );
 
       typedef itk::tf::DifferenceImageFilter<ImageType,ImageType> DiffType;
       typename DiffType::Pointer diff = DiffType::New();
       diff->SetValidInput( extractor->GetOutput() );
-      diff->SetTestInput( testImage );
+      diff->SetTestInput( testExtractor->GetOutput() );
       diff->SetMagnitudeThreshold( intensityTolerance );
       diff->SetToleranceRadius( radiusTolerance );
       diff->UpdateLargestPossibleRegion();
-- 
2.43.0


From 6d557b784222f5a3b3603a50b2d7817a1ab0cbd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:33 +0000
Subject: [PATCH 33/39] fix: generate file names before a run and below the
 root path

---
 itktf/itktfRegression.cxx | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/itktf/itktfRegression.cxx b/itktf/itktfRegression.cxx
index e05320f..ebad1c5 100644
--- a/itktf/itktfRegression.cxx
+++ b/itktf/itktfRegression.cxx
@@ -66,8 +66,17 @@ std::string Regression::GenerateFileName( std::string fileExtension, std::string
     }
   
 
+  // there are no arguments before Main
+  std::string program = m_ArgumentList.empty() ? std::string( "unknown" ) : m_ArgumentList.front();
+
+  if ( rootPath != "" )
+    {
+    // the path of the program must not replace the root path
+    program = fileutil::PathName( program ).Tail().GetPathName();
+    }
+
   std::ostringstream strstream;
-  strstream << m_ArgumentList.front() << "_" << std::hex << hash << "_" << ++m_FileNameCount << "." << fileExtension;
+  strstream << program << "_" << std::hex << hash << "_" << ++m_FileNameCount << "." << fileExtension;
 
 
   if ( rootPath != "" )
-- 
2.43.0


From 13334091a0dc1dcdf20bc17dc122a631d09619b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:23 +0000
Subject: [PATCH 34/39] fix: what is not a number is only equal to itself in a
 tolerant comparison

---
 TestingFramework/tfMeasurement.h | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/TestingFramework/tfMeasurement.h b/TestingFramework/tfMeasurement.h
index d772d46..f114ba6 100644
--- a/TestingFramework/tfMeasurement.h
+++ b/TestingFramework/tfMeasurement.h
@@ -38,6 +38,7 @@
 
 #include <string> 
 #include <iostream>
+#include <sstream>
 #include <cmath>
 #include <cstdlib>
 #include <numeric>
@@ -447,6 +448,15 @@ namespace testutil {
 
   protected:
 
+    /// \brief true if the contents of both can be read as a T
+    template <class T>
+    bool _AreReadable(const NumericData &rm) const {
+      T v;
+      std::istringstream lss(this->GetContent());
+      std::istringstream rss(rm.GetContent());
+      return !(lss >> v).fail() && !(rss >> v).fail();
+    }
+
     template <class T>
     static bool _IsEqualTolerant(const T &lm, const T &rm, double tol) {
       tol = std::abs(tol);
@@ -488,6 +498,9 @@ namespace testutil {
      // see NumericData
     virtual bool IsEqualTolerant(const NumericData &rm, double tol) {
       const IntegerNumeric *m = dynamic_cast<const IntegerNumeric*>(&rm);
+      // what is not a number is only equal to itself
+      if (m && !this->_AreReadable<long>(*m))
+	return this->GetContent() == m->GetContent();
       if (m)
 	return _IsEqualTolerant(this->GetValue(), m->GetValue(), tol);
       else 
@@ -526,6 +539,9 @@ namespace testutil {
     // see NumericData
     virtual bool IsEqualTolerant(const NumericData &rm, double tol) {
       const FloatNumeric *m = dynamic_cast<const FloatNumeric*>(&rm);
+      // what is not a number is only equal to itself
+      if (m && !this->_AreReadable<float>(*m))
+	return this->GetContent() == m->GetContent();
       if (m)
 	return _IsEqualTolerant(this->GetValue(), m->GetValue(), tol);
       else 
@@ -562,6 +578,9 @@ namespace testutil {
      // see NumericData
      virtual bool IsEqualTolerant(const NumericData &rm, double tol) {
        const DoubleNumeric *m = dynamic_cast<const DoubleNumeric*>(&rm);
+      // what is not a number is only equal to itself
+      if (m && !this->_AreReadable<double>(*m))
+	return this->GetContent() == m->GetContent();
        if (m)
 	 return _IsEqualTolerant(this->GetValue(), m->GetValue(), tol);
        else 
@@ -600,6 +619,9 @@ namespace testutil {
     // see NumericData
     virtual bool IsEqualTolerant(const NumericData &rm, double tol) {
       const BooleanNumeric *m = dynamic_cast<const BooleanNumeric*>(&rm);
+      // what is not a number is only equal to itself
+      if (m && !this->_AreReadable<bool>(*m))
+	return this->GetContent() == m->GetContent();
        if (m)
 	 return this->GetValue() ==  m->GetValue();
        else 
-- 
2.43.0


From c5c0fb7139439f519458fabe08d2a0818de2cf10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:15 +0000
Subject: [PATCH 35/39] fix: every run counts its own mismatches

---
 TestingFramework/tfRegressionTest.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/TestingFramework/tfRegressionTest.cpp b/TestingFramework/tfRegressionTest.cpp
index 43fcef8..c89b9e5 100644
--- a/TestingFramework/tfRegressionTest.cpp
+++ b/TestingFramework/tfRegressionTest.cpp
@@ -320,7 +320,8 @@ const fileutil::PathList &RegressionTest::GetInFileSearchPath(void) const {
 
 
     try {
-      this->inputUnmatched++;
+      // counts as unmatched until the run completes
+      this->inputUnmatched = 1;
       
       this->ParseAndRemoveArguments(argc, argv);
       
-- 
2.43.0


From 043bf90109324f326dc3a5f3e137d68c29e46967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:07 +0000
Subject: [PATCH 36/39] fix: no second slash when a path is appended to the
 root directory

---
 FileUtilities/PathName.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/FileUtilities/PathName.cpp b/FileUtilities/PathName.cpp
index b858b08..04b5615 100644
--- a/FileUtilities/PathName.cpp
+++ b/FileUtilities/PathName.cpp
@@ -142,10 +142,10 @@ namespace fileutil {
 #else /// POSIX UNIX
       // remove trailing '/'
       std::string path = this->GetNativePathName();
-      std::string::size_type i = path.length() - 1;
-      while (i && path[i] == '/')
+      std::string::size_type i = path.length();
+      while (i && path[i - 1] == '/')
 	--i;
-      path.erase(i + 1, path.length() - i - 1);
+      path.erase(i, path.length() - i);
       this->SetPathName(path + '/' + f.GetNativePathName());      
     
 #endif
-- 
2.43.0


From 1d39892dce6a5e3c43309bc113dc21113910feac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:22 +0000
Subject: [PATCH 37/39] fix: the smallest integer has an absolute value in a
 tolerant comparison

---
 TestingFramework/tfMeasurement.h | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/TestingFramework/tfMeasurement.h b/TestingFramework/tfMeasurement.h
index f114ba6..e5c58f7 100644
--- a/TestingFramework/tfMeasurement.h
+++ b/TestingFramework/tfMeasurement.h
@@ -460,12 +460,14 @@ namespace testutil {
     template <class T>
     static bool _IsEqualTolerant(const T &lm, const T &rm, double tol) {
       tol = std::abs(tol);
-      // the difference may be too large for T
-      long double temp = std::abs(static_cast<long double>(lm) - static_cast<long double>(rm));
-      return  temp <= tol*std::abs(lm) ||
-	temp <= tol*std::abs(rm) || 
-	(std::abs(lm) < std::numeric_limits<T>::epsilon() &&
-	 std::abs(rm) < std::numeric_limits<T>::epsilon());
+      // the difference and the absolute values may be too large for T
+      const long double l = lm;
+      const long double r = rm;
+      const long double temp = std::abs(l - r);
+      return  temp <= tol*std::abs(l) ||
+	temp <= tol*std::abs(r) || 
+	(std::abs(l) < std::numeric_limits<T>::epsilon() &&
+	 std::abs(r) < std::numeric_limits<T>::epsilon());
     }
     
   private:
-- 
2.43.0


From 5dc3c2c3b9e41676d6c3d4a9dec8613c815ed1b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:23 +0000
Subject: [PATCH 38/39] fix: the buffers of a diff are released when writing it
 throws

---
 TestingFramework/tfDiff.cpp | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/TestingFramework/tfDiff.cpp b/TestingFramework/tfDiff.cpp
index 302399a..52c85cc 100644
--- a/TestingFramework/tfDiff.cpp
+++ b/TestingFramework/tfDiff.cpp
@@ -51,6 +51,18 @@ namespace testutil {
       
       
     struct fumoffu {      
+      fumoffu() : diagonals(0) {
+        for (int j = 0; j < 2; ++j)
+          str[j] = 0, nlines[j] = 0, lines[j] = 0, vec[j] = 0;
+      }
+      // releases the buffers, also when an exception leaves Diff
+      ~fumoffu() {
+        delete[] diagonals;
+        for (int j = 0; j < 2; ++j) {
+          delete[] lines[j];
+          delete[] vec[j];
+        }
+      }
       const string *str[2];  // the strings with the text in them
       size_t nlines[2];      // the number of lines in the strings
       line *lines[2];        // the indecies for the lines,
@@ -58,6 +70,9 @@ namespace testutil {
       id_type *vec[2];       // the uniques of each line, nlines[k]
       // length 
       ptrdiff_t *diagonals;  // used by midpoint
+    private:
+      fumoffu(const fumoffu &);         // not implemented
+      void operator=(const fumoffu &);  // not implemented
     };
       
 
@@ -494,17 +509,7 @@ namespace testutil {
     //       cout << "lenght: " << l.size() << endl;
    
     PrintEditList(l, data, os);
-      
-    delete[] data.diagonals;
 
-    // allocate the lines
-    for (int j = 0; j < 2; ++j)
-      delete[] data.lines[j];
-
-    // allocate the unique ids
-    for (int j = 0; j < 2; ++j)
-      delete[] data.vec[j];
-      
   }
    
     
-- 
2.43.0


From b699a34d433779f6dcc972214502ed6356620b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:18 +0000
Subject: [PATCH 39/39] fix: lines of a diff are printed whole

---
 TestingFramework/tfDiff.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/TestingFramework/tfDiff.cpp b/TestingFramework/tfDiff.cpp
index 52c85cc..60be468 100644
--- a/TestingFramework/tfDiff.cpp
+++ b/TestingFramework/tfDiff.cpp
@@ -315,9 +315,8 @@ namespace testutil {
 
     void PrintLines(const string &prefix, int source,  size_t lnum, size_t num, const fumoffu &data, std::ostream &os) {
 		for (; num > 0; ++lnum, --num) {
-			// some reason MSDEV needed conversion??
-	os << prefix.c_str() << data.str[source]->substr(data.lines[source][lnum].lindex, 
-						   data.lines[source][lnum].length).c_str()<< endl;
+	os << prefix << data.str[source]->substr(data.lines[source][lnum].lindex, 
+						 data.lines[source][lnum].length) << endl;
 		}
     }
 
-- 
2.43.0

