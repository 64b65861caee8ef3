From 9be31a8b2d1137c8804a58353df503a69ae81b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:57 +0000
Subject: [PATCH 01/90] fix: PrintToString crashed on or truncated strings of
 1024 characters or more

---
 core/utilities.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/core/utilities.cpp b/core/utilities.cpp
index c651be6..6d79f89 100644
--- a/core/utilities.cpp
+++ b/core/utilities.cpp
@@ -72,13 +72,17 @@ string vformat( const char *fmt, va_list ap )
 
   while (1) {
     // Try to vsnprintf into our buffer.
-    int  needed = vsnprintf(buf, size, fmt, ap);
+    // (use a copy of the argument list, since it cannot be traversed twice)
+    va_list  apCopy;
+    va_copy(apCopy, ap);
+    int  needed = vsnprintf(buf, size, fmt, apCopy);
+    va_end(apCopy);
     // NB. C99 (which modern Linux and OS X follow) says vsnprintf
     // failure returns the length it would have needed.  But older
     // glibc and current Windows return -1 for failure, i.e., not
     // telling us how much was needed.
 
-    if (needed <= (int)size && needed >= 0) {
+    if (needed < (int)size && needed >= 0) {
       // It fit fine so we're done.
       return string(buf, (size_t)needed);
     }
-- 
2.43.0


From 95b1382e031127642cc18f2c7bdab51db1951a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:57 +0000
Subject: [PATCH 02/90] fix: TrimWhitespace erased strings with a single
 non-blank character

---
 core/config_file_parser.cpp | 6 ++++--
 core/utilities.cpp          | 2 +-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/core/config_file_parser.cpp b/core/config_file_parser.cpp
index 20b07a2..cf27f64 100644
--- a/core/config_file_parser.cpp
+++ b/core/config_file_parser.cpp
@@ -520,7 +520,8 @@ int ReadConfigFile( const string& configFileName, const bool mode2D, vector<stri
 #endif
     TrimWhitespace(inputLine);
     // store non-empty, non-comment lines in a vector of strings
-    if ((inputLine.size() > 0) && (inputLine[0] != '#')) {
+    // (lines with just one character are skipped)
+    if ((inputLine.size() > 1) && (inputLine[0] != '#')) {
       inputLines.push_back(inputLine);
       origLineNumbers.push_back(k);
     }
@@ -612,7 +613,8 @@ int ReadConfigFile( const string& configFileName, const bool mode2D, vector<stri
     // strip off leading & trailing spaces; turns a blank line with spaces/tabs
     // into an empty string
     TrimWhitespace(inputLine);
-    if ((inputLine.size() > 0) && (inputLine[0] != '#')) {
+    // (lines with just one character are skipped)
+    if ((inputLine.size() > 1) && (inputLine[0] != '#')) {
       inputLines.push_back(inputLine);
       origLineNumbers.push_back(k);
     }
diff --git a/core/utilities.cpp b/core/utilities.cpp
index 6d79f89..79195c6 100644
--- a/core/utilities.cpp
+++ b/core/utilities.cpp
@@ -281,7 +281,7 @@ void TrimWhitespace( string& stringToModify )
 
   string::size_type  startIndex = stringToModify.find_first_not_of(" \t\n");
   string::size_type  endIndex = stringToModify.find_last_not_of(" \t\n");
-  if (startIndex == endIndex)
+  if (startIndex == string::npos)
     stringToModify.clear();
   else
     stringToModify = stringToModify.substr(startIndex, (endIndex - startIndex + 1) );
-- 
2.43.0


From 3bac55692e06fb1fb709d403bcb3bf9372633674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:57 +0000
Subject: [PATCH 03/90] fix: SplitString kept leading delimiters if there were
 none after the (only) token

---
 core/utilities.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/utilities.cpp b/core/utilities.cpp
index 79195c6..6a046fd 100644
--- a/core/utilities.cpp
+++ b/core/utilities.cpp
@@ -218,8 +218,8 @@ void SplitString( const string& str, vector<string>& tokens, const string& delim
   string::size_type  lastPos = str.find_first_not_of(delimiters, 0);
   // Find first "non-delimiter".
   string::size_type  pos = str.find_first_of(delimiters, lastPos);
-  if (pos == string::npos) {
-    // oops, no delimiters in this string, so just return the whole string
+  if (lastPos == string::npos) {
+    // oops, nothing but delimiters in this string, so just return the whole string
     tokens.push_back(str);
   }
   else {
-- 
2.43.0


From 4fcdd8195164c054b863e398c9ac63d32606af03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:39 +0000
Subject: [PATCH 04/90] fix: config-file keywords inside comments or later on a
 line were taken for real X0/FUNCTION/OPTIONAL_PARAMS lines

---
 core/config_file_parser.cpp | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/core/config_file_parser.cpp b/core/config_file_parser.cpp
index cf27f64..561cc66 100644
--- a/core/config_file_parser.cpp
+++ b/core/config_file_parser.cpp
@@ -267,12 +267,12 @@ int VetConfigFile( vector<string>& inputLines, const vector<int>& origLineNumber
   // OK, locate the start of the function set (first line beginning with "X0")
   i = 0;
   while (i < nInputLines) {
-    if (inputLines[i].find("X0", 0) != string::npos) {
+    if (inputLines[i].find("X0", 0) == 0) {
       functionSectionStart = i;
       functionSectionFound = true;
       if (mode2D) {
         // for 2D (makeimage or imfit) mode, the next line must start with "Y0"
-        if ( ((i + 1) == nInputLines) || (inputLines[i + 1].find("Y0", 0) == string::npos) ) {
+        if ( ((i + 1) == nInputLines) || (inputLines[i + 1].find("Y0", 0) != 0) ) {
           yValueOK = false;
           *badLineNumber = origLineNumbers[i];
         }
@@ -285,7 +285,7 @@ int VetConfigFile( vector<string>& inputLines, const vector<int>& origLineNumber
   // Check to make sure we have at least one FUNCTION line
   if ((functionSectionFound) && (yValueOK)) {
     for (i = functionSectionStart; i < nInputLines; i++) {
-      if (inputLines[i].find("FUNCTION", 0) != string::npos) {
+      if (inputLines[i].find("FUNCTION", 0) == 0) {
         functionsExist = true;
         break;
       }
@@ -302,13 +302,13 @@ int VetConfigFile( vector<string>& inputLines, const vector<int>& origLineNumber
       LOG_F(2, "VetConfigFile: checking line %d (orig = %d): %s", i, 
       		origLineNumbers[i], inputLines[i].c_str());
 #endif
-      if (inputLines[i].find("FUNCTION", 0) == string::npos) {
+      if (inputLines[i].find("FUNCTION", 0) != 0) {
         // test for valid line
-        if (inputLines[i].find(OPTIONAL_PARAMS_START, 0) != string::npos) {
+        if (inputLines[i].find(OPTIONAL_PARAMS_START, 0) == 0) {
           inOptionalParams = true;
           continue;
         }
-        if (inputLines[i].find(OPTIONAL_PARAMS_END, 0) != string::npos) {
+        if (inputLines[i].find(OPTIONAL_PARAMS_END, 0) == 0) {
           inOptionalParams = false;
           continue;
         }
@@ -400,7 +400,7 @@ int ParseFunctionSection( vector<string>& inputLines, const bool mode2D,
   int  paramNumber = 0;
   parameterLimitsFound = false;
   while (i < (int)inputLines.size()) {
-    if (inputLines[i].find("X0", 0) != string::npos) {
+    if (inputLines[i].find("X0", 0) == 0) {
       //printf("X0 detected (i = %d)\n", i);
       fsetStartIndices.push_back(functionNumber);
       pLimitFound = AddParameterAndLimit(inputLines[i], parameterList, parameterLimits,
@@ -415,7 +415,7 @@ int ParseFunctionSection( vector<string>& inputLines, const bool mode2D,
       i++;
       if (mode2D) {
         // X0 line should always be followed by Y0 line in 2D mode
-        if (inputLines[i].find("Y0", 0) == string::npos) {
+        if (inputLines[i].find("Y0", 0) != 0) {
           fprintf(stderr, "*** WARNING: A 'Y0' line must follow each 'X0' line in the configuration file!\n");
           fprintf(stderr, "   (X0 specification on input line %d should be followed by Y0 specification on next line)\n",
           				origLineNumbers[i] - 1);
@@ -435,7 +435,7 @@ int ParseFunctionSection( vector<string>& inputLines, const bool mode2D,
       continue;
     }
     
-    if (inputLines[i].find("FUNCTION", 0) != string::npos) {
+    if (inputLines[i].find("FUNCTION", 0) == 0) {
       //printf("Function detected (i = %d)\n", i);
       AddFunctionNameAndLabel(inputLines[i], functionNameList, functionLabels);
       // add empty optional-params map
@@ -448,12 +448,12 @@ int ParseFunctionSection( vector<string>& inputLines, const bool mode2D,
 
     // OK, we only reach here if we're inside an individual function specification,
     // so it's a regular (non-positional) parameter line *or* optional-parameter specification
-    if (inputLines[i].find(OPTIONAL_PARAMS_START, 0) != string::npos) {
+    if (inputLines[i].find(OPTIONAL_PARAMS_START, 0) == 0) {
       inOptionalParams = true;
       i++;
       continue;
     }
-    if (inputLines[i].find(OPTIONAL_PARAMS_END, 0) != string::npos) {
+    if (inputLines[i].find(OPTIONAL_PARAMS_END, 0) == 0) {
       // Note that optionalParamsMap will be empty if no optional-parameter section
       // was found; this is fine.
       inOptionalParams = false;
-- 
2.43.0


From c6ad2dc20179e5432795df9a18dc6b8b39bb63a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:39 +0000
Subject: [PATCH 05/90] fix: out-of-bounds read for a FUNCTION line without a
 function name

---
 core/config_file_parser.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/core/config_file_parser.cpp b/core/config_file_parser.cpp
index 561cc66..f03086f 100644
--- a/core/config_file_parser.cpp
+++ b/core/config_file_parser.cpp
@@ -321,6 +321,16 @@ int VetConfigFile( vector<string>& inputLines, const vector<int>& origLineNumber
           break;
         }
       }
+      else {
+        // FUNCTION line must include function name (check copy of line, since
+        // ValidParameterLine chops off comment, which may include a label)
+        string  functionLine = inputLines[i];
+        if (! ValidParameterLine(functionLine, true)) {
+          allOK = false;
+          *badLineNumber = origLineNumbers[i];
+          break;
+        }
+      }
     }
   }
   
-- 
2.43.0


From 62b292e483aab9c562e589801da2a20ad9455e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:39 +0000
Subject: [PATCH 06/90] fix: out-of-bounds read when a configuration file ends
 with an X0 line

---
 core/config_file_parser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/config_file_parser.cpp b/core/config_file_parser.cpp
index f03086f..0b17503 100644
--- a/core/config_file_parser.cpp
+++ b/core/config_file_parser.cpp
@@ -425,10 +425,10 @@ int ParseFunctionSection( vector<string>& inputLines, const bool mode2D,
       i++;
       if (mode2D) {
         // X0 line should always be followed by Y0 line in 2D mode
-        if (inputLines[i].find("Y0", 0) != 0) {
+        if ( (i >= (int)inputLines.size()) || (inputLines[i].find("Y0", 0) != 0) ) {
           fprintf(stderr, "*** WARNING: A 'Y0' line must follow each 'X0' line in the configuration file!\n");
           fprintf(stderr, "   (X0 specification on input line %d should be followed by Y0 specification on next line)\n",
-          				origLineNumbers[i] - 1);
+          				origLineNumbers[i - 1]);
           return -1;
         }
         pLimitFound = AddParameterAndLimit(inputLines[i], parameterList, parameterLimits,
-- 
2.43.0


From b828196ca021c155f1da65821a88ba6e6d854f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:39 +0000
Subject: [PATCH 07/90] fix: out-of-bounds write for optional parameters before
 the first FUNCTION line

---
 core/config_file_parser.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/config_file_parser.cpp b/core/config_file_parser.cpp
index 0b17503..cb4c980 100644
--- a/core/config_file_parser.cpp
+++ b/core/config_file_parser.cpp
@@ -471,6 +471,11 @@ int ParseFunctionSection( vector<string>& inputLines, const bool mode2D,
       continue;
     }
     if (inOptionalParams) {
+      if (functionNumber < 1) {
+        fprintf(stderr, "*** WARNING: optional parameters (input line %d) must come after a FUNCTION line!\n",
+        				origLineNumbers[i]);
+        return -1;
+      }
       AddOptionalParameter(inputLines[i], optionalParamsVect[functionNumber - 1]);
       i++;
     } else {
-- 
2.43.0


From 132086b03ab194db44fbd84231eb3730658905eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:47 +0000
Subject: [PATCH 08/90] fix: out-of-bounds reads for malformed
 oversampling-region strings

---
 core/utilities.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/core/utilities.cpp b/core/utilities.cpp
index 6a046fd..122f951 100644
--- a/core/utilities.cpp
+++ b/core/utilities.cpp
@@ -314,9 +314,15 @@ std::tuple<int, int, int, int> GetAllCoordsFromBracket( const string& bracketStr
   // Trim away "[" at start, "]" at end if user accidentally included them
   string::size_type  startIndex = bracketString.find_first_not_of("[");
   string::size_type  endIndex = bracketString.find_last_not_of("]");
-  copyBracketString = bracketString.substr(startIndex, (endIndex - startIndex + 1) );
+  if ((startIndex != string::npos) && (endIndex != string::npos) && (endIndex >= startIndex))
+    copyBracketString = bracketString.substr(startIndex, (endIndex - startIndex + 1) );
 
   SplitString(copyBracketString, sectionPieces, ",");
+  if (sectionPieces.size() != 2) {
+    fprintf(stderr, "\nWARNING: Incorrect image section format!\n");
+    fprintf(stderr, "\t\"%s\"\n", copyBracketString.c_str());
+    return std::make_tuple(0,0,0,0);
+  }
   // handle the x part of the section specification
   if (sectionPieces[0] == star)
     x1 = 1;
@@ -325,7 +331,7 @@ std::tuple<int, int, int, int> GetAllCoordsFromBracket( const string& bracketStr
     if (subsectionPieces_x.size() != 2) {
       fprintf(stderr, "\nWARNING1: Incorrect image section format!\n");
       fprintf(stderr, "\t\"%s\"\n", copyBracketString.c_str());
-      std::make_tuple(0,0,0,0);
+      return std::make_tuple(0,0,0,0);
     }
     x1 = atoi(subsectionPieces_x[0].c_str());
     x2 = atoi(subsectionPieces_x[1].c_str());
-- 
2.43.0


From ac8b3412b989465794fa68d148ffb97d9adf6414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:47 +0000
Subject: [PATCH 09/90] fix: wrong pixel offset for image sections with spaces
 around a '*' range

---
 core/utilities.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/core/utilities.cpp b/core/utilities.cpp
index 122f951..792fe04 100644
--- a/core/utilities.cpp
+++ b/core/utilities.cpp
@@ -368,6 +368,14 @@ std::tuple<int, int>  GetStartCoordsFromBracket( const string& bracketString,
   x1 = y1 = 0;
   
   SplitString(bracketString, sectionPieces, ",");
+  if (sectionPieces.size() != 2) {
+    fprintf(stderr, "\nWARNING: Incorrect image section format in \"%s\"!\n",
+    				fileName.c_str());
+    return std::make_tuple(0,0);
+  }
+  // CFITSIO allows spaces around the individual ranges
+  TrimWhitespace(sectionPieces[0]);
+  TrimWhitespace(sectionPieces[1]);
   // handle the x part of the section specification
   if (sectionPieces[0] == star)
     x1 = 1;
-- 
2.43.0


From d9e471673bfbaa86b8e14f170da17fe37215b982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:23 +0000
Subject: [PATCH 10/90] fix: --option=value lost everything after a second '=',
 and '--option=' swallowed the next argument

---
 core/commandline_parser.cpp | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/core/commandline_parser.cpp b/core/commandline_parser.cpp
index 2faa8d6..e8e6a68 100644
--- a/core/commandline_parser.cpp
+++ b/core/commandline_parser.cpp
@@ -277,8 +277,7 @@ void CLineParser::AddUsageLine( const string usageLine )
 /// Main method which parses command line
 int CLineParser::ParseCommandLine( int argc, char *argv[] )
 {
-  string  currentString;
-  vector<string>  stringPieces;
+  string  currentString, optionName, optionTarget;
   OptionObject  *currentOpt;
   int  i;
   
@@ -298,11 +297,12 @@ int CLineParser::ParseCommandLine( int argc, char *argv[] )
       }
       if (verboseLevel > 1)
         printf("\tflag or option: %s\n", currentString.c_str());
-      // chop the string up if there's an "=" in the middle
-      SplitString(currentString, stringPieces, "=");
-      if (optMap.count(stringPieces[0]) > 0) {
+      // chop the string up at the first "=", if there is one
+      string::size_type  eqLoc = currentString.find('=');
+      optionName = currentString.substr(0, eqLoc);
+      if (optMap.count(optionName) > 0) {
         // OK, this is a valid flag or option
-        currentOpt = optMap[stringPieces[0]];
+        currentOpt = optMap[optionName];
         if (currentOpt->IsFlag()) {
           // It's a flag, so set it
           currentOpt->SetFlag();
@@ -311,8 +311,15 @@ int CLineParser::ParseCommandLine( int argc, char *argv[] )
         else {
           // It's an option with a target
           // check for "=" format
-          if (stringPieces.size() > 1) {
-            currentOpt->StoreTarget(stringPieces[1].c_str());
+          if (eqLoc != string::npos) {
+            // everything after the first "=" is the target
+            optionTarget = currentString.substr(eqLoc + 1);
+            if (optionTarget.empty()) {
+              fprintf(stderr, "WARNING: option \"%s\" requires an argument!\n",
+                      argv[i]);
+              return -1;
+            }
+            currentOpt->StoreTarget(optionTarget.c_str());
             continue;
           }
           else {   // no equals sign, so should be "-opt target" format
-- 
2.43.0


From 70c90d6d7c555cc973d3bfafb2d4bd0c0c6a05b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:47 +0000
Subject: [PATCH 11/90] fix: DownsampleAndReplace computed the number of rows
 of an oversampled region from its number of columns

Non-square regions (or non-square oversampled PSFs) were only partly replaced or
read and wrote outside the arrays.
---
 core/downsample.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/downsample.cpp b/core/downsample.cpp
index b8c5fc5..b622f03 100644
--- a/core/downsample.cpp
+++ b/core/downsample.cpp
@@ -76,7 +76,7 @@ void DownsampleAndReplace( const double *oversampledImage, int nOversampCols,
   i1 = startY - 1 + nMainPSFRows;
   // get number of columns and rows in sub-region of main image
   nCols_subregion = (int)((nOversampCols - 2*nOversampPSFCols)/oversampleScale);
-  nRows_subregion = (int)((nOversampCols - 2*nOversampPSFRows)/oversampleScale);
+  nRows_subregion = (int)((nOversampRows - 2*nOversampPSFRows)/oversampleScale);
   oversampleArea = oversampleScale*oversampleScale;
 
   // iterate over sub-region within main image [i,j = indices for main image]
-- 
2.43.0


From ce9a9c814ce9f8bb68fbbda34126855e59425d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:47 +0000
Subject: [PATCH 12/90] fix: point sources were drawn at the wrong scale once
 an oversampled region had been computed

OversampledRegion sets the oversampling scale of PointSource functions; it was not
reset before the next (main-image) computation.
---
 core/model_object.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/core/model_object.cpp b/core/model_object.cpp
index 3c022eb..1ce092a 100644
--- a/core/model_object.cpp
+++ b/core/model_object.cpp
@@ -1188,8 +1188,10 @@ void ModelObject::CreateModelImage( double params[] )
     // getting assigned alternate psfInterpolators), so we have to reset PointSource 
     // objects to use the standard-resolution psfInterpolator object held by ModelObject
     for (FunctionObject *funcObj : functionObjects)
-      if (funcObj->IsPointSource())
+      if (funcObj->IsPointSource()) {
         funcObj->AddPsfInterpolator(psfInterpolator);
+        funcObj->SetOversamplingScale(1);
+      }
     
 #pragma omp parallel private(i,j,n,x,y,newValSum,tempSum,adjVal,storedError)
     {
@@ -1277,8 +1279,10 @@ double * ModelObject::GetSingleFunctionImage( double params[], int functionIndex
   
   // If requested function is PointSource, re-assign the PsfInterpolator object
   // (see comments in CreateModelImage for why we need to do this)
-  if (functionObjects[functionIndex]->IsPointSource())
+  if (functionObjects[functionIndex]->IsPointSource()) {
     functionObjects[functionIndex]->AddPsfInterpolator(psfInterpolator);
+    functionObjects[functionIndex]->SetOversamplingScale(1);
+  }
 
   // 1. OK, populate modelVector with the model image -- standard pixel scaling
   // OpenMP Parallel section; see CreateModelImage() for general notes on this
-- 
2.43.0


From 715b25b626c80bb8d28c80822220c83205dd15d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:47 +0000
Subject: [PATCH 13/90] fix: Lanczos PSF interpolation used the transposed PSF
 image (and read outside it for non-square PSFs)

---
 function_objects/psf_interpolators.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/function_objects/psf_interpolators.cpp b/function_objects/psf_interpolators.cpp
index ff60889..e1d3cdb 100644
--- a/function_objects/psf_interpolators.cpp
+++ b/function_objects/psf_interpolators.cpp
@@ -182,7 +182,7 @@ double PsfInterpolator_lanczos2::GetValue( double x, double y )
           else {
             y_dat = yArray[i_data_y];  // current y-value for PSF pixels
             lanczosScaling = Lanczos(x - x_dat, 2) * Lanczos(y - y_dat, 2);
-            newVal += lanczosScaling * psfDataArray[i_data_x*nColumns + i_data_y];
+            newVal += lanczosScaling * psfDataArray[i_data_y*nColumns + i_data_x];
           }
         }
       }
@@ -272,7 +272,7 @@ double PsfInterpolator_lanczos3::GetValue( double x, double y )
           else {
             y_dat = yArray[i_data_y];  // current y-value for PSF pixels
             lanczosScaling = Lanczos(x - x_dat, 3) * Lanczos(y - y_dat, 3);
-            newVal += lanczosScaling * psfDataArray[i_data_x*nColumns + i_data_y];
+            newVal += lanczosScaling * psfDataArray[i_data_y*nColumns + i_data_x];
           }
         }
       }
-- 
2.43.0


From 5246c0413bf27fe348754b84c54aa47f9ff5d3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:47 +0000
Subject: [PATCH 14/90] fix: bicubic PSF interpolation was not thread-safe

The GSL accelerator objects of a PsfInterpolator were shared (and modified) by all
threads of a parallel pixel loop, so a thread could use the index looked up by another.
---
 function_objects/psf_interpolators.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/function_objects/psf_interpolators.cpp b/function_objects/psf_interpolators.cpp
index e1d3cdb..ce0609c 100644
--- a/function_objects/psf_interpolators.cpp
+++ b/function_objects/psf_interpolators.cpp
@@ -97,7 +97,9 @@ double PsfInterpolator_bicubic::GetValue( double x, double y )
   if ((x < deltaXMin) || (x > deltaXMax) || (y < deltaYMin) || (y > deltaYMax))
     newVal = 0.0;
   else
-    newVal = gsl_spline2d_eval(splineInterp, x, y, xacc, yacc);
+    // no accelerator objects: they are updated by every lookup, but GetValue is called
+    // by several threads at once
+    newVal = gsl_spline2d_eval(splineInterp, x, y, nullptr, nullptr);
   return newVal;
 }
 
-- 
2.43.0


From 0f100d3d017d48759feacd102a7bd4494a61da5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:47 +0000
Subject: [PATCH 15/90] fix: FindTotalFluxes left the flux of background
 components unset

---
 core/model_object.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/model_object.cpp b/core/model_object.cpp
index 1ce092a..a91fe89 100644
--- a/core/model_object.cpp
+++ b/core/model_object.cpp
@@ -2451,7 +2451,7 @@ double ModelObject::FindTotalFluxes( double params[], int xSize, int ySize,
   // Integrate over the image, once per function
   for (n = 0; n < nFunctions; n++) {
     if (functionObjects[n]->IsBackground())
-      totalComponentFlux = 0.0;
+      individualFluxes[n] = 0.0;
     else {
       if (functionObjects[n]->CanCalculateTotalFlux()) {
         totalComponentFlux = functionObjects[n]->TotalFlux();
-- 
2.43.0


From e45d250a6a8c30e87726196dbdeeb5d1f8ed0dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:14 +0000
Subject: [PATCH 16/90] fix: ModelObject did not initialise nGlobalFunctions,
 nPerImageFunctionSets, nPerImageParams

ModelObjectMultImage adds to nPerImageParams (and that to nParamsTot), FinalModelSetup
compares nFunctions with nGlobalFunctions.
---
 core/model_object.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/model_object.cpp b/core/model_object.cpp
index a91fe89..e783a9c 100644
--- a/core/model_object.cpp
+++ b/core/model_object.cpp
@@ -176,6 +176,11 @@ ModelObject::ModelObject( )
   nDataVals = nDataColumns = nDataRows = 0;
   nModelVals = nModelColumns = nModelRows = 0;
   nPSFColumns = nPSFRows = 0;
+
+  nGlobalFunctions = 0;
+  nPerImageFunctionSets = 0;
+  nPerImageParams = 0;
+  zeroPoint = 0.0;
 }
 
 
-- 
2.43.0


From c4df09853605558c1bfc7e63f95ca387b76f9d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:14 +0000
Subject: [PATCH 17/90] fix: GetWeightImageVector leaked its previous image on
 every call

---
 core/model_object.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/core/model_object.cpp b/core/model_object.cpp
index e783a9c..f0adee6 100644
--- a/core/model_object.cpp
+++ b/core/model_object.cpp
@@ -2372,18 +2372,22 @@ double * ModelObject::GetWeightImageVector( )
     return nullptr;
   }
   
-  standardWeightVector = (double *) calloc((size_t)nDataVals, sizeof(double));
-  if (standardWeightVector == nullptr) {
-    fprintf(stderr, "*** ERROR: Unable to allocate memory for output weight image!\n");
-    fprintf(stderr, "    (Requested image size was %ld pixels)\n", nDataVals);
-    return nullptr;
+  // WARNING: If we are calling this function for a second or subsequent time,
+  // nDataVals *might* have changed; we are currently assuming it hasn't!
+  if (! standardWeightVectorAllocated) {
+    standardWeightVector = (double *) calloc((size_t)nDataVals, sizeof(double));
+    if (standardWeightVector == nullptr) {
+      fprintf(stderr, "*** ERROR: Unable to allocate memory for output weight image!\n");
+      fprintf(stderr, "    (Requested image size was %ld pixels)\n", nDataVals);
+      return nullptr;
+    }
+    standardWeightVectorAllocated = true;
   }
   for (long z = 0; z < nDataVals; z++) {
     // Note: this loop is auto-vectorized when compiling with -O3 and -sse2 (g++-7)
     double  w_sqrt = weightVector[z];   // internal weight value (sqrt of formal weight)
   	standardWeightVector[z] = w_sqrt*w_sqrt;
   }
-  standardWeightVectorAllocated = true;
   return standardWeightVector;
 }
 
-- 
2.43.0


From 1ae80af0d10a509fc43f72d376fa6c6550b169f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:14 +0000
Subject: [PATCH 18/90] fix: optional parameters of PointSourceRot: crash for
 "Lanczos2", "lanczos3" rejected, method not saved

As PointSource::SetExtraParams already does it.
---
 function_objects/func_pointsource-rot.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/function_objects/func_pointsource-rot.cpp b/function_objects/func_pointsource-rot.cpp
index 4ab7646..2ccb823 100644
--- a/function_objects/func_pointsource-rot.cpp
+++ b/function_objects/func_pointsource-rot.cpp
@@ -167,6 +167,10 @@ int PointSourceRot::SetExtraParams( map<string,string>& inputMap )
         interpolationType = "lanczos2";
         break;
       }
+      if ((iter->second == "lanczos3") || (iter->second == "Lanczos3")) {
+        interpolationType = "lanczos3";
+        break;
+      }
       fprintf(stderr, "ERROR: unidentified interpolation type in PointSourceRot::SetExtraParams!\n");
       fprintf(stderr, "(\"%s\" is not a recognized interpolation type)\n",
       			iter->second.c_str());
@@ -178,8 +182,8 @@ int PointSourceRot::SetExtraParams( map<string,string>& inputMap )
       return 0;
     }
   }
-  interpolationType = iter->second;
   extraParamsSet = true;
+  inputExtraParams = inputMap;
   printf("   PointSourceRot::SetExtraParams -- setting method = %s\n", 
        		interpolationType.c_str());
   return 1;
-- 
2.43.0


From fa00a8e13d4d0ef198daba978e6df1d78b26ee0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:08 +0000
Subject: [PATCH 19/90] fix: assertion failure for oversampling regions one
 pixel wide or outside the image

A one-column or one-row region is now accepted; a region which does not overlap the
image is reported as an error.
---
 core/model_object.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/core/model_object.cpp b/core/model_object.cpp
index f0adee6..32faf50 100644
--- a/core/model_object.cpp
+++ b/core/model_object.cpp
@@ -900,7 +900,6 @@ int ModelObject::AddOversampledPsfInfo( PsfOversamplingInfo *oversampledPsfInfo
   psfPixels_osamp = oversampledPsfInfo->GetPsfPixels();
   
   assert( (nPixels >= 1) && (nColumns_psf >= 1) && (nRows_psf >= 1) );
-  assert( (x1 < x2) && (y1 < y2) );
   assert( (oversampleScale >= 1) );
   // assertion to check that nModelColumns and nModelRows *have* been set to good values
   assert( (nModelColumns > 0) && (nModelRows > 0) );
@@ -924,8 +923,11 @@ int ModelObject::AddOversampledPsfInfo( PsfOversamplingInfo *oversampledPsfInfo
   // size of oversampling region
   deltaX = x2 - x1 + 1;
   deltaY = y2 - y1 + 1;
-  assert( deltaX > 0 );
-  assert( deltaY > 0 );
+  if ((deltaX < 1) || (deltaY < 1)) {
+    fprintf(stderr, "** ERROR: PSF oversampling region (%s) is malformed or lies outside the image!\n",
+    		oversampledPsfInfo->GetRegionString().c_str());
+    return -1;
+  }
   nCols_osamp = oversampleScale * deltaX;
   nRows_osamp = oversampleScale * deltaY;
   
-- 
2.43.0


From d71db33ec04136077f26ab273a0dd947cdeb6864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:08 +0000
Subject: [PATCH 20/90] fix: oversampled PSF images with zero or negative sum
 gave NaN model images

AddPSFVector already rejects them for the main PSF.
---
 core/model_object.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/core/model_object.cpp b/core/model_object.cpp
index 32faf50..cbfd1a0 100644
--- a/core/model_object.cpp
+++ b/core/model_object.cpp
@@ -889,6 +889,7 @@ int ModelObject::AddOversampledPsfInfo( PsfOversamplingInfo *oversampledPsfInfo
   int  nColumns_psf, nRows_psf, oversampleScale;
   int  x1, x2, y1, y2;
   double  *psfPixels_osamp;
+  double  psfSum = 0.0;
   int  deltaX, deltaY, nCols_osamp, nRows_osamp;
   int  status = 0;
   
@@ -909,6 +910,11 @@ int ModelObject::AddOversampledPsfInfo( PsfOversamplingInfo *oversampledPsfInfo
       fprintf(stderr, "** ERROR: Oversampled PSF image has one or more non-finite values!\n");
       return -1;
     }
+    psfSum += psfPixels_osamp[i];
+  }
+  if ((oversampledPsfInfo->GetNormalizationFlag()) && (psfSum <= 0.0)) {
+    fprintf(stderr, "** ERROR: Sum of oversampled PSF pixel values is <= 0 -- PSF cannot be normalized!\n");
+    return -1;
   }
 
   // restrict region to be oversampled (in data or output image) to lie within image bounds
-- 
2.43.0


From 537bc289e6b01fbcd86f86c42188160736150e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:08 +0000
Subject: [PATCH 21/90] fix: null-pointer crash for point sources with an
 oversampled PSF smaller than 4 x 4 pixels

The error was reported, but the model was used anyway.
---
 core/model_object.cpp     | 4 ++++
 core/oversampled_region.h | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/core/model_object.cpp b/core/model_object.cpp
index cbfd1a0..aed0520 100644
--- a/core/model_object.cpp
+++ b/core/model_object.cpp
@@ -305,6 +305,10 @@ int ModelObject::AddFunction( FunctionObject *newFunctionObj_ptr, bool isGlobalF
       if (result < 0)
       	return -1;
     }
+    // interpolation is also needed for any oversampled regions
+    for (OversampledRegion *region : oversampledRegionsVect)
+      if (! region->HasPsfInterpolator())
+      	return -1;
     newFunctionObj_ptr->AddPsfInterpolator(psfInterpolator);
     pointSourcesPresent = true;
   }
diff --git a/core/oversampled_region.h b/core/oversampled_region.h
index e039962..04d7e81 100644
--- a/core/oversampled_region.h
+++ b/core/oversampled_region.h
@@ -38,6 +38,8 @@ class OversampledRegion
     void AddPSFVector( double *psfPixels_input, int nColumns, int nRows,
     					bool normalizePSF=true );
     
+    bool HasPsfInterpolator( ) { return psfInterpolator_allocated; };
+
     void SetMaxThreads( int maximumThreadNumber );
 
     void SetDebugLevel( int debuggingLevel );
-- 
2.43.0


From 89d78b8f97bdfb63f39fd13d787a40bd0fdfe69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:05 +0000
Subject: [PATCH 22/90] fix: PointSource functions with different interpolation
 methods all used the method of the first one

---
 core/model_object.cpp | 46 ++++++++++++++++++++-----------------------
 core/model_object.h   |  4 ++--
 2 files changed, 23 insertions(+), 27 deletions(-)

diff --git a/core/model_object.cpp b/core/model_object.cpp
index aed0520..c1a0a99 100644
--- a/core/model_object.cpp
+++ b/core/model_object.cpp
@@ -120,8 +120,6 @@ ModelObject::ModelObject( )
   fsetStartFlags = nullptr;
 
   localPsfPixels = nullptr;
-  psfInterpolator = nullptr;
-  psfInterpolator_allocated = false;
   
   modelVectorAllocated = false;
   maskVectorAllocated = false;
@@ -207,8 +205,8 @@ ModelObject::~ModelObject()
   if (localPsfPixels_allocated)
     free(localPsfPixels);
 
-  if (psfInterpolator_allocated)
-    delete psfInterpolator;
+  for (auto& interpolator : psfInterpolators)
+    delete interpolator.second;
   
   if (nFunctions > 0)
     for (int i = 0; i < nFunctions; i++)
@@ -298,18 +296,17 @@ int ModelObject::AddFunction( FunctionObject *newFunctionObj_ptr, bool isGlobalF
   
   // handle optional case of PointSource function
   if (newFunctionObj_ptr->IsPointSource()) {
-    if (! psfInterpolator_allocated) {
-      string interpName = newFunctionObj_ptr->GetInterpolationType();
-      int interpType = interpolationMap[interpName];
-      result = SetupPsfInterpolation(interpType);
-      if (result < 0)
-      	return -1;
-    }
+    // (different PointSource functions can use different interpolation methods)
+    string interpName = newFunctionObj_ptr->GetInterpolationType();
+    int interpType = interpolationMap[interpName];
+    result = SetupPsfInterpolation(interpType);
+    if (result < 0)
+      return -1;
     // interpolation is also needed for any oversampled regions
     for (OversampledRegion *region : oversampledRegionsVect)
       if (! region->HasPsfInterpolator())
       	return -1;
-    newFunctionObj_ptr->AddPsfInterpolator(psfInterpolator);
+    newFunctionObj_ptr->AddPsfInterpolator(psfInterpolators[interpType]);
     pointSourcesPresent = true;
   }
   
@@ -351,7 +348,7 @@ int ModelObject::FinalModelSetup( )
 /// causes an internal PsfInterpolator object of the appropriate subclass
 /// to be allocated and set up with previously supplied PSF data.
 /// This should only be called *after* AddPSFVector has been called to supply the
-/// PSF data.
+/// PSF data. Does nothing if this interpolation type has already been set up.
 int ModelObject::SetupPsfInterpolation( int interpolationType )
 {
 
@@ -369,20 +366,18 @@ int ModelObject::SetupPsfInterpolation( int interpolationType )
     return -2;
   }
 
+  if (psfInterpolators.count(interpolationType) > 0)
+    return 0;
+
   switch (interpolationType) {
     case kInterpolator_bicubic:
-      psfInterpolator = new PsfInterpolator_bicubic(localPsfPixels, nPSFColumns, nPSFRows);
-	  psfInterpolator_allocated = true;
+      psfInterpolators[interpolationType] = new PsfInterpolator_bicubic(localPsfPixels, nPSFColumns, nPSFRows);
       break;
     case kInterpolator_lanczos2:
-      psfInterpolator = new PsfInterpolator_lanczos2(localPsfPixels, nPSFColumns, nPSFRows);
-      psfInterpolator_allocated = true;
+      psfInterpolators[interpolationType] = new PsfInterpolator_lanczos2(localPsfPixels, nPSFColumns, nPSFRows);
       break;
     case kInterpolator_lanczos3:
-//       printf("ERROR: Lanczos3 interpolation not yet implemented!\n");
-//       return -2;
-      psfInterpolator = new PsfInterpolator_lanczos3(localPsfPixels, nPSFColumns, nPSFRows);
-      psfInterpolator_allocated = true;
+      psfInterpolators[interpolationType] = new PsfInterpolator_lanczos3(localPsfPixels, nPSFColumns, nPSFRows);
       break;
   }
   
@@ -1200,13 +1195,13 @@ void ModelObject::CreateModelImage( double params[] )
   // 2.B Add flux from PointSource functions, if present 
   // (must be done *after* PSF convolution!)
   if (pointSourcesPresent) {
-    // Re-assign psfInterpolator object (bcs. calls made to
+    // Re-assign PsfInterpolator objects (bcs. calls made to
     // OversampledRegion::ComputeRegionAndDownsample result in PointSource objects 
     // getting assigned alternate psfInterpolators), so we have to reset PointSource 
-    // objects to use the standard-resolution psfInterpolator object held by ModelObject
+    // objects to use the standard-resolution PsfInterpolator objects held by ModelObject
     for (FunctionObject *funcObj : functionObjects)
       if (funcObj->IsPointSource()) {
-        funcObj->AddPsfInterpolator(psfInterpolator);
+        funcObj->AddPsfInterpolator(psfInterpolators[interpolationMap[funcObj->GetInterpolationType()]]);
         funcObj->SetOversamplingScale(1);
       }
     
@@ -1297,7 +1292,8 @@ double * ModelObject::GetSingleFunctionImage( double params[], int functionIndex
   // If requested function is PointSource, re-assign the PsfInterpolator object
   // (see comments in CreateModelImage for why we need to do this)
   if (functionObjects[functionIndex]->IsPointSource()) {
-    functionObjects[functionIndex]->AddPsfInterpolator(psfInterpolator);
+    string interpName = functionObjects[functionIndex]->GetInterpolationType();
+    functionObjects[functionIndex]->AddPsfInterpolator(psfInterpolators[interpolationMap[interpName]]);
     functionObjects[functionIndex]->SetOversamplingScale(1);
   }
 
diff --git a/core/model_object.h b/core/model_object.h
index 7b81eac..9cdf85f 100644
--- a/core/model_object.h
+++ b/core/model_object.h
@@ -13,6 +13,7 @@
 #ifndef _MODEL_OBJ_H_
 #define _MODEL_OBJ_H_
 
+#include <map>
 #include <vector>
 #include <string>
 
@@ -325,8 +326,7 @@ class ModelObject
     int  imageOffset_X0, imageOffset_Y0;
     string  dataFilename;
     
-    PsfInterpolator *psfInterpolator;
-    bool  psfInterpolator_allocated;
+    std::map<int, PsfInterpolator *> psfInterpolators;   // key = interpolation type
     
     // stuff for ovsersampled PSF convolution
     Convolver  *psfConvolver_osamp;
-- 
2.43.0


From c393807ed19cd9c4a71779618364e76bcf573332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:50 +0000
Subject: [PATCH 23/90] fix: masked non-finite data pixels made the Poisson-MLR
 statistic NaN

---
 core/model_object.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/model_object.cpp b/core/model_object.cpp
index c1a0a99..d1feb68 100644
--- a/core/model_object.cpp
+++ b/core/model_object.cpp
@@ -704,7 +704,8 @@ void ModelObject::GenerateExtraCashTerms( )
     dataVal = effectiveGain*(dataVector[z] + originalSky);
     // the following is strictly OK only for dataVal == 0 (lim_{x -> 0} x ln(x) = 0); 
     // the case of dataVal < 0 is undefined
-    if (dataVal <= 0.0)
+    // (masked pixels, which can have non-finite data values, must not contribute)
+    if ( (dataVal <= 0.0) || ((maskExists) && (maskVector[z] <= 0.0)) )
       extraTerm = 0.0;
     else
       extraTerm = dataVal*log(dataVal) - dataVal;
-- 
2.43.0


From e67580b670780245d17c60b50f334070299e066f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:03 +0000
Subject: [PATCH 24/90] fix: bootstrap summary used the requested instead of
 the successful number of iterations

---
 core/bootstrap_errors.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/bootstrap_errors.cpp b/core/bootstrap_errors.cpp
index 008e70a..5e97c2e 100644
--- a/core/bootstrap_errors.cpp
+++ b/core/bootstrap_errors.cpp
@@ -132,10 +132,10 @@ int BootstrapErrors( const double *bestfitParams, vector<mp_par> parameterLimits
     // Calculate sigmas and 68% confidence intervals for the parameters
     // vector to hold estimated sigmas for each parameter
     if (multimfitMode)
-      PrintBootstrapSummaryMultimfit(bestfitParams, outputParamArray, nParams, nIterations, 
-    								parameterLimits, theModel);
+      PrintBootstrapSummaryMultimfit(bestfitParams, outputParamArray, nParams, 
+    								nSuccessfulIterations, parameterLimits, theModel);
     else
-      PrintBootstrapSummary(bestfitParams, outputParamArray, nParams, nIterations, 
+      PrintBootstrapSummary(bestfitParams, outputParamArray, nParams, nSuccessfulIterations, 
     						parameterLimits, theModel);
   }
 
-- 
2.43.0


From 06020e2711ebe2ed308566e909b8d236b04e7ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:03 +0000
Subject: [PATCH 25/90] fix: out-of-bounds reads and wrong labels in
 multimfit's bootstrap summary

---
 core/bootstrap_errors.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/bootstrap_errors.cpp b/core/bootstrap_errors.cpp
index 5e97c2e..8bd3ae2 100644
--- a/core/bootstrap_errors.cpp
+++ b/core/bootstrap_errors.cpp
@@ -402,18 +402,18 @@ void PrintBootstrapSummaryMultimfit( const double *bestfitParams, double **outpu
         plus = upper - bestfitParams[i];
         minus = bestfitParams[i] - lower;
         halfwidth = (upper - lower)/2.0;
-        printf("%s = %g  +%g, -%g    [%g -- %g, %g];  (%g +/- %g)\n", imageParamLabels[i].c_str(),
+        printf("%s = %g  +%g, -%g    [%g -- %g, %g];  (%g +/- %g)\n", imageParamLabels[j].c_str(),
       	       	bestfitParams[i], plus, minus, lower, upper, halfwidth,
         		Mean(outputParamArray[i], nIterations), paramSigmas[i]);
       }
       else
-        printf("%s = %g     [fixed parameter]\n", imageParamLabels[i].c_str(),
+        printf("%s = %g     [fixed parameter]\n", imageParamLabels[j].c_str(),
         		bestfitParams[i]);
     }
   }
   
   // now print results for model parameters
-  i_last = i;
+  i_last = i + 1;
   printf("# Model parameters:\n");
   for (i = i_last; i < nParams; i++) {
     if (parameterLimits[i].fixed == 0) {
-- 
2.43.0


From 6327ea5a4816f686304e3ad04d42fe669e4b4620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:03 +0000
Subject: [PATCH 26/90] fix: bootstrap summary compared image-section-relative
 best-fit X0,Y0 with full-image bootstrap values

---
 core/bootstrap_errors.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/core/bootstrap_errors.cpp b/core/bootstrap_errors.cpp
index 8bd3ae2..a5e1f38 100644
--- a/core/bootstrap_errors.cpp
+++ b/core/bootstrap_errors.cpp
@@ -88,7 +88,7 @@ int BootstrapErrors( const double *bestfitParams, vector<mp_par> parameterLimits
 					const int nIterations, const int nFreeParams, const int whichStatistic, 
 					FILE *outputFile_ptr, unsigned long rngSeed, bool multimfitMode )
 {
-  double  *paramSigmas;
+  double  *paramOffsets, *bestfitParams_offsetCorrected;
   double **outputParamArray;
 //   double  lower, upper, plus, minus, halfwidth;
   int  i, nSuccessfulIterations;
@@ -104,8 +104,8 @@ int BootstrapErrors( const double *bestfitParams, vector<mp_par> parameterLimits
   for (i = 0; i < nParams; i++)
     outputParamArray[i] = (double *)calloc( (size_t)nIterations, sizeof(double) );
 
-//   paramOffsets = (double *) calloc(nParams, sizeof(double));
-//   bestfitParams_offsetCorrected = (double *) calloc(nParams, sizeof(double));
+  paramOffsets = (double *) calloc(nParams, sizeof(double));
+  bestfitParams_offsetCorrected = (double *) calloc(nParams, sizeof(double));
   
   // write column header info to file, if user requested saving to file
   if (outputFile_ptr != nullptr) {
@@ -125,25 +125,25 @@ int BootstrapErrors( const double *bestfitParams, vector<mp_par> parameterLimits
   else {
     // Apply image-offset corrections to best-fit parameters, so their values
     // get printed corrected
-//     theModel->GetImageOffsets(paramOffsets);
-//     for (i = 0; i < nParams; i++)
-//       bestfitParams_offsetCorrected[i] = bestfitParams[i] + paramOffsets[i];
+    theModel->GetImageOffsets(paramOffsets);
+    for (i = 0; i < nParams; i++)
+      bestfitParams_offsetCorrected[i] = bestfitParams[i] + paramOffsets[i];
     
     // Calculate sigmas and 68% confidence intervals for the parameters
     // vector to hold estimated sigmas for each parameter
     if (multimfitMode)
-      PrintBootstrapSummaryMultimfit(bestfitParams, outputParamArray, nParams, 
+      PrintBootstrapSummaryMultimfit(bestfitParams_offsetCorrected, outputParamArray, nParams, 
     								nSuccessfulIterations, parameterLimits, theModel);
     else
-      PrintBootstrapSummary(bestfitParams, outputParamArray, nParams, nSuccessfulIterations, 
+      PrintBootstrapSummary(bestfitParams_offsetCorrected, outputParamArray, nParams, nSuccessfulIterations, 
     						parameterLimits, theModel);
   }
 
   for (i = 0; i < nParams; i++)
     free(outputParamArray[i]);
   free(outputParamArray);
-//   free(paramOffsets);
-//   free(bestfitParams_offsetCorrected);
+  free(paramOffsets);
+  free(bestfitParams_offsetCorrected);
 
   return nSuccessfulIterations;
 }
-- 
2.43.0


From 69c3a4d59a87b1f0f6ef28d2d3811da836a5ae51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:53 +0000
Subject: [PATCH 27/90] fix: fit statistics saved after bootstrap resampling
 were those of the last bootstrap sample

---
 core/bootstrap_errors.cpp       | 10 ++++++++++
 core/model_object.cpp           |  9 +++++++++
 core/model_object.h             |  2 ++
 core/model_object_multimage.cpp | 10 ++++++++++
 core/model_object_multimage.h   |  2 ++
 5 files changed, 33 insertions(+)

diff --git a/core/bootstrap_errors.cpp b/core/bootstrap_errors.cpp
index a5e1f38..715ba38 100644
--- a/core/bootstrap_errors.cpp
+++ b/core/bootstrap_errors.cpp
@@ -183,7 +183,9 @@ int BootstrapErrorsBase( const double *bestfitParams, vector<mp_par> parameterLi
   status = theModel->UseBootstrap();
   if (status < 0) {
     fprintf(stderr, "Error encountered during bootstrap setup!\n");
+    theModel->EndBootstrap();
     free(paramsVect);
+    free(paramOffsets);
     return -1;
   }
 
@@ -243,6 +245,9 @@ int BootstrapErrorsBase( const double *bestfitParams, vector<mp_par> parameterLi
   printf("\n");
 
  
+  // later uses of the model should use the original data, not the last bootstrap sample
+  theModel->EndBootstrap();
+
   free(paramsVect);
   free(paramOffsets);
 
@@ -279,7 +284,9 @@ int BootstrapErrorsArrayOnly( const double *bestfitParams, vector<mp_par> parame
   status = theModel->UseBootstrap();
   if (status < 0) {
     fprintf(stderr, "Error encountered during bootstrap setup!\n");
+    theModel->EndBootstrap();
     free(paramsVect);
+    free(paramOffsets);
     return -1;
   }
 
@@ -329,6 +336,9 @@ int BootstrapErrorsArrayOnly( const double *bestfitParams, vector<mp_par> parame
   if (verboseFlag)
     printf("\n");
 
+  // later uses of the model should use the original data, not the last bootstrap sample
+  theModel->EndBootstrap();
+
   free(paramsVect);
   free(paramOffsets);
 
diff --git a/core/model_object.cpp b/core/model_object.cpp
index d1feb68..6ade1a9 100644
--- a/core/model_object.cpp
+++ b/core/model_object.cpp
@@ -2071,6 +2071,15 @@ int ModelObject::UseBootstrap( )
 }
 
 
+/* ---------------- PUBLIC METHOD: EndBootstrap ------------------------ */
+/// Tells ModelObject object to leave bootstrap resampling mode: from now on, fit
+/// statistics, etc., are computed using the original data again.
+void ModelObject::EndBootstrap( )
+{
+  doBootstrap = false;
+}
+
+
 /* ---------------- PUBLIC METHOD: MakeBootstrapSample ----------------- */
 /// Generate a new bootstrap resampling of the data (more precisely, this generate a
 /// bootstrap resampling of the data *indices*)
diff --git a/core/model_object.h b/core/model_object.h
index 9cdf85f..ac297b0 100644
--- a/core/model_object.h
+++ b/core/model_object.h
@@ -261,6 +261,8 @@ class ModelObject
     
     virtual int MakeBootstrapSample( );
     
+    virtual void EndBootstrap( );
+    
     // [x] 2D only (used in model_object_multimage.cpp)
     void GetDataImageDimensions( int *nColumns, int *nRows );
 
diff --git a/core/model_object_multimage.cpp b/core/model_object_multimage.cpp
index ea0147e..82a9905 100644
--- a/core/model_object_multimage.cpp
+++ b/core/model_object_multimage.cpp
@@ -738,6 +738,16 @@ int ModelObjectMultImage::UseBootstrap( )
 }
 
 
+/* ---------------- PUBLIC METHOD: EndBootstrap ------------------------ */
+/// Tells all the ModelObject instances in modelObjectsVect to leave bootstrap
+/// resampling mode.
+void ModelObjectMultImage::EndBootstrap( )
+{
+  for (int i = 0; i < nModelObjects; i++)
+    modelObjectsVect[i]->EndBootstrap();
+}
+
+
 /* ---------------- PUBLIC METHOD: MakeBootstrapSample ----------------- */
 /// Generate a new bootstrap resampling of the data (more precisely, this generate a
 /// bootstrap resampling of the data *indices*).
diff --git a/core/model_object_multimage.h b/core/model_object_multimage.h
index 19de69c..7ff942c 100644
--- a/core/model_object_multimage.h
+++ b/core/model_object_multimage.h
@@ -96,6 +96,8 @@ class ModelObjectMultImage : public ModelObject
     
     int MakeBootstrapSample( ) override;
 
+    void EndBootstrap( ) override;
+
     string PrintModelParamsHorizontalString( const double params[], 
     											const string& separator="\t" ) override;
 
-- 
2.43.0


From 25e26c3d1a59d75a6322d3066b232d05e434db7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:15 +0000
Subject: [PATCH 28/90] fix: heap overflow in multimfit's bootstrap resampling
 when an image has masked pixels

---
 core/model_object_multimage.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/core/model_object_multimage.cpp b/core/model_object_multimage.cpp
index 82a9905..929cf73 100644
--- a/core/model_object_multimage.cpp
+++ b/core/model_object_multimage.cpp
@@ -436,7 +436,11 @@ void ModelObjectMultImage::ComputeDeviates( double yResults[], double params[] )
 
     modelObjectsVect[i]->ComputeDeviates(yResults + startIndex, 
     									paramsForModelObjects[i]);
-    startIndex += modelObjectsVect[i]->GetNDataValues();
+    // in bootstrap mode, individual models only generate deviates for valid pixels
+    if (doBootstrap)
+      startIndex += modelObjectsVect[i]->GetNValidPixels();
+    else
+      startIndex += modelObjectsVect[i]->GetNDataValues();
   }
 }
 
@@ -729,6 +733,7 @@ int ModelObjectMultImage::UseBootstrap( )
   int  status = 0;
   int  cumulativeStatus = 0;
   
+  doBootstrap = true;
   for (int i = 0; i < nModelObjects; i++) {
     status = modelObjectsVect[i]->UseBootstrap();
     if (status < 0)
@@ -743,6 +748,7 @@ int ModelObjectMultImage::UseBootstrap( )
 /// resampling mode.
 void ModelObjectMultImage::EndBootstrap( )
 {
+  doBootstrap = false;
   for (int i = 0; i < nModelObjects; i++)
     modelObjectsVect[i]->EndBootstrap();
 }
-- 
2.43.0


From 18a8323463c80a78cd35f080dbf92fff30d4956c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:15 +0000
Subject: [PATCH 29/90] fix: multimfit's bootstrap output had no image-section
 offsets for image X0,Y0 (and an extra first value for a single image)

---
 core/model_object_multimage.cpp | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/core/model_object_multimage.cpp b/core/model_object_multimage.cpp
index 929cf73..cb9c80e 100644
--- a/core/model_object_multimage.cpp
+++ b/core/model_object_multimage.cpp
@@ -660,11 +660,24 @@ string ModelObjectMultImage::PrintModelParamsHorizontalString( const double para
   // number of image-description parameters
   nImageParams = (nModelObjects - 1)*N_IMAGE_PARAMS;
   
-  // Line should start with parameter value (no initial separator)
-  outputString = PrintToString("%#.10g", params[0]);
-  // now we precede each subsequent parameter value with separator
-  for (int i = 1; i < nImageParams; i++)
-    outputString += PrintToString("%s%#.10g", separator.c_str(), params[i]);
+  // Line should start with parameter value (no initial separator); we precede each 
+  // subsequent parameter value with separator
+  for (int i = 1; i < nModelObjects; i++) {
+    int  start = (i - 1)*N_IMAGE_PARAMS;
+    int  offset_x0, offset_y0;
+    // pixel offsets for this image
+    std::tie(offset_x0, offset_y0) = modelObjectsVect[i]->GetImageOffsets();
+    for (int j = 0; j < N_IMAGE_PARAMS; j++) {
+      paramVal = params[start + j];
+      if (j == N_IMAGE_PARAMS - 2)
+        paramVal += offset_x0;
+      else if (j == N_IMAGE_PARAMS - 1)
+        paramVal += offset_y0;
+      if (! outputString.empty())
+        outputString += separator;
+      outputString += PrintToString("%#.10g", paramVal);
+    }
+  }
 
   indexOffset = nImageParams;
   for (int n = 0; n < nFunctions; n++) {
@@ -673,7 +686,9 @@ string ModelObjectMultImage::PrintModelParamsHorizontalString( const double para
       k = indexOffset;
       x0 = params[k] + image1Offset_x0;
       y0 = params[k + 1] + image1Offset_y0;
-      outputString += PrintToString("%s%#.10g%s%#.10g", separator.c_str(), x0, separator.c_str(), y0);
+      if (! outputString.empty())
+        outputString += separator;
+      outputString += PrintToString("%#.10g%s%#.10g", x0, separator.c_str(), y0);
       indexOffset += 2;
     }
 
-- 
2.43.0


From d5f44ddb646c227d807be3b3ee5ca0b69640bb8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:29 +0000
Subject: [PATCH 30/90] fix: multimfit's bootstrap summary listed
 image-section-relative X0,Y0 values

---
 core/model_object.h             |  2 +-
 core/model_object_multimage.cpp | 18 ++++++++++++++++++
 core/model_object_multimage.h   |  3 +++
 3 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/core/model_object.h b/core/model_object.h
index ac297b0..8a9d811 100644
--- a/core/model_object.h
+++ b/core/model_object.h
@@ -168,7 +168,7 @@ class ModelObject
 
     void GetFunctionLabels( vector<string>& functionLabels );
 
-    void  GetImageOffsets( double params[] );
+    virtual void  GetImageOffsets( double params[] );
     
     virtual string GetParamHeader( );
 
diff --git a/core/model_object_multimage.cpp b/core/model_object_multimage.cpp
index cb9c80e..20fb289 100644
--- a/core/model_object_multimage.cpp
+++ b/core/model_object_multimage.cpp
@@ -642,6 +642,24 @@ string ModelObjectMultImage::GetDataFilename( int imageNumber )
 
 
 
+/* ---------------- PUBLIC METHOD: GetImageOffsets --------------------- */
+/// Given an input array (all zeros), this method sets the values corresponding to
+/// the X0,Y0 of each image's image-description parameters, and to the X0,Y0 of
+/// each function set (reference image), to the image offsets.
+void ModelObjectMultImage::GetImageOffsets( double params[] )
+{
+  int  offset_x0, offset_y0;
+  int  nImageParams = (nModelObjects - 1)*N_IMAGE_PARAMS;
+  
+  for (int i = 1; i < nModelObjects; i++) {
+    std::tie(offset_x0, offset_y0) = modelObjectsVect[i]->GetImageOffsets();
+    params[i*N_IMAGE_PARAMS - 2] = offset_x0;
+    params[i*N_IMAGE_PARAMS - 1] = offset_y0;
+  }
+  modelObjectsVect[0]->GetImageOffsets(params + nImageParams);
+}
+
+
 /* ---------------- PUBLIC METHOD: PrintModelParamsHorizontalString --- */
 /// Like PrintModelParamsToString, but prints parameter values all in one line to
 /// a string (*without* parameter names or limits or errors), which is returned.
diff --git a/core/model_object_multimage.h b/core/model_object_multimage.h
index 7ff942c..08484f8 100644
--- a/core/model_object_multimage.h
+++ b/core/model_object_multimage.h
@@ -90,6 +90,9 @@ class ModelObjectMultImage : public ModelObject
 									double errs[], const char *prefix, 
 									bool printLimits ) override;
 
+    using ModelObject::GetImageOffsets;
+    void  GetImageOffsets( double params[] ) override;
+
     int GetNImages( ) override;
 
     int UseBootstrap( ) override;
-- 
2.43.0


From 371ab742e94ac77696b4159036d57fce9baec832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:00 +0000
Subject: [PATCH 31/90] fix: FlatBar scaled I_0 with the pixel scale instead of
 the intensity scale

---
 function_objects/func_flatbar.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/function_objects/func_flatbar.cpp b/function_objects/func_flatbar.cpp
index 1166cb4..5a041fd 100644
--- a/function_objects/func_flatbar.cpp
+++ b/function_objects/func_flatbar.cpp
@@ -114,7 +114,7 @@ void FlatBar::Setup( double params[], int offsetIndex, double xc, double yc )
   PA = params[0 + offsetIndex] - imageRotation;
   ell = params[1 + offsetIndex];
   deltaPA_max = params[2 + offsetIndex];
-  I_0 = params[3 + offsetIndex ] * pixelScaling;
+  I_0 = params[3 + offsetIndex ] * intensityScale;
   h1 = params[4 + offsetIndex ] * pixelScaling;
   h2 = params[5 + offsetIndex ] * pixelScaling;
   r_b = params[6 + offsetIndex ] * pixelScaling;
-- 
2.43.0


From 360a5df3595ed4d09ef4378483cdb2826498df28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:25 +0000
Subject: [PATCH 32/90] fix: TiltedSkyPlane::AdjustParametersForImage left the
 slopes unset

---
 function_objects/func_tilted-sky-plane.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/function_objects/func_tilted-sky-plane.cpp b/function_objects/func_tilted-sky-plane.cpp
index 9b59d81..cbdcb94 100644
--- a/function_objects/func_tilted-sky-plane.cpp
+++ b/function_objects/func_tilted-sky-plane.cpp
@@ -77,6 +77,9 @@ void TiltedSkyPlane::AdjustParametersForImage( const double inputFunctionParams[
   // I_0
   adjustedFunctionParams[0 + offsetIndex] = intensityScale * inputFunctionParams[0 + offsetIndex];
   // FIXME: figure out correct size rescaling via pixScaling for m_x and m_y (units of pixel^-1)
+  // (for now, we use the same, unscaled slopes that Setup() uses)
+  adjustedFunctionParams[1 + offsetIndex] = inputFunctionParams[1 + offsetIndex];
+  adjustedFunctionParams[2 + offsetIndex] = inputFunctionParams[2 + offsetIndex];
 }
 
 
-- 
2.43.0


From 28e1781babf6f31e78ffeeea8314313b1005fdbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:54 +0000
Subject: [PATCH 33/90] fix: 3D functions stored the integrand's parameters in
 a member shared by all threads

---
 function_objects/func_bpbar3d.cpp          | 6 ++++--
 function_objects/func_brokenexpdisk3d.cpp  | 6 ++++--
 function_objects/func_expdisk3d.cpp        | 6 ++++--
 function_objects/func_ferrersbar3d.cpp     | 6 ++++--
 function_objects/func_gaussianring3d.cpp   | 6 ++++--
 function_objects/func_peanut_dattathri.cpp | 6 ++++--
 function_objects/func_triaxbar3d.cpp       | 6 ++++--
 7 files changed, 28 insertions(+), 14 deletions(-)

diff --git a/function_objects/func_bpbar3d.cpp b/function_objects/func_bpbar3d.cpp
index 2cd148c..31c3777 100644
--- a/function_objects/func_bpbar3d.cpp
+++ b/function_objects/func_bpbar3d.cpp
@@ -244,11 +244,13 @@ double BPBar3D::GetValue( double x, double y )
   xyParameters[17] = z_bp_max;
   xyParameters[18] = h_bp;
   xyParameters[19] = twosigma_squared;
-  F.params = xyParameters;
+  // local copy of F, since GetValue can be called by several threads at once
+  gsl_function  F_local = F;
+  F_local.params = xyParameters;
 
   // printf("Calling Integrate...\n");
   // integrate out to +/- integLimit
-  totalIntensity = Integrate(F, -integrationLimit, integrationLimit);
+  totalIntensity = Integrate(F_local, -integrationLimit, integrationLimit);
   // printf("Done.\n");
 
   return totalIntensity;
diff --git a/function_objects/func_brokenexpdisk3d.cpp b/function_objects/func_brokenexpdisk3d.cpp
index 7a99cbf..ab2bd0a 100644
--- a/function_objects/func_brokenexpdisk3d.cpp
+++ b/function_objects/func_brokenexpdisk3d.cpp
@@ -201,7 +201,9 @@ double BrokenExponentialDisk3D::GetValue( double x, double y )
   xyParameters[13] = scaledZ0;
   xyParameters[14] = two_to_alpha;
   xyParameters[15] = alphaVert;
-  F.params = xyParameters;
+  // local copy of F, since GetValue can be called by several threads at once
+  gsl_function  F_local = F;
+  F_local.params = xyParameters;
 
   // integrate out to +/- integLimit, which is larger of (multiple of break radius)
   // and (multiple of h2)
@@ -209,7 +211,7 @@ double BrokenExponentialDisk3D::GetValue( double x, double y )
   // Setup() call above; for some reason doing it that way makes the whole thing
   // take ~ 4 times longer!)
   integLimit = fmax(INTEGRATION_MULTIPLIER * r_b, INTEGRATION_MULTIPLIER * h2);
-  totalIntensity = Integrate(F, -integLimit, integLimit);
+  totalIntensity = Integrate(F_local, -integLimit, integLimit);
 
   return totalIntensity;
 }
diff --git a/function_objects/func_expdisk3d.cpp b/function_objects/func_expdisk3d.cpp
index 8cf2254..b4fcab6 100644
--- a/function_objects/func_expdisk3d.cpp
+++ b/function_objects/func_expdisk3d.cpp
@@ -206,14 +206,16 @@ double ExponentialDisk3D::GetValue( double x, double y )
   xyParameters[8] = scaledZ0;
   xyParameters[9] = two_to_alpha;
   xyParameters[10] = alpha;
-  F.params = xyParameters;
+  // local copy of F, since GetValue can be called by several threads at once
+  gsl_function  F_local = F;
+  F_local.params = xyParameters;
 
   // integrate out to +/- integLimit, which is multiple of exp. scale length
   // (NOTE: it seems like it would be faster to precalculate integLimit in the
   // Setup() call above; for some reason doing it that way makes the whole thing
   // take ~ 4 times longer!)
   integLimit = INTEGRATION_MULTIPLIER * h;
-  totalIntensity = Integrate(F, -integLimit, integLimit);
+  totalIntensity = Integrate(F_local, -integLimit, integLimit);
 
   return totalIntensity;
 }
diff --git a/function_objects/func_ferrersbar3d.cpp b/function_objects/func_ferrersbar3d.cpp
index a08dd69..eacf6a4 100644
--- a/function_objects/func_ferrersbar3d.cpp
+++ b/function_objects/func_ferrersbar3d.cpp
@@ -201,14 +201,16 @@ double FerrersBar3D::GetValue( double x, double y )
   xyParameters[9] = b2;
   xyParameters[10] = c2;
   xyParameters[11] = n;
-  F.params = xyParameters;
+  // local copy of F, since GetValue can be called by several threads at once
+  gsl_function  F_local = F;
+  F_local.params = xyParameters;
 
   // [] NOTE: ideally, we should compute the integration limits directly, given
   // the known orientation of the ellipsoid, as the inner and outer boundaries of
   // the ellipsoid along the current line of sight; this would be superior to our current
   // -number,+number integration...
   // integrate out to +/- integLimit
-  totalIntensity = Integrate(F, -integrationLimit, integrationLimit);
+  totalIntensity = Integrate(F_local, -integrationLimit, integrationLimit);
 
   return totalIntensity;
 }
diff --git a/function_objects/func_gaussianring3d.cpp b/function_objects/func_gaussianring3d.cpp
index 4385054..4c883f0 100644
--- a/function_objects/func_gaussianring3d.cpp
+++ b/function_objects/func_gaussianring3d.cpp
@@ -199,11 +199,13 @@ double GaussianRing3D::GetValue( double x, double y )
   xyParameters[9] = a_ring;
   xyParameters[10] = h_z;
   xyParameters[11] = twosigma_squared;
-  F.params = xyParameters;
+  // local copy of F, since GetValue can be called by several threads at once
+  gsl_function  F_local = F;
+  F_local.params = xyParameters;
 
   // integrate out to +/- integLimit, which is multiple of ring radius
   integLimit = INTEGRATION_MULTIPLIER * a_ring;
-  totalIntensity = Integrate(F, -integLimit, integLimit);
+  totalIntensity = Integrate(F_local, -integLimit, integLimit);
 
   return totalIntensity;
 }
diff --git a/function_objects/func_peanut_dattathri.cpp b/function_objects/func_peanut_dattathri.cpp
index dfbf22e..744159b 100644
--- a/function_objects/func_peanut_dattathri.cpp
+++ b/function_objects/func_peanut_dattathri.cpp
@@ -196,14 +196,16 @@ double DattathriPeanut3D::GetValue( double x, double y )
   xyParameters[13] = sinInc;
   xyParameters[14] = cosPsi;
   xyParameters[15] = sinPsi;
-  F.params = xyParameters;
+  // local copy of F, since GetValue can be called by several threads at once
+  gsl_function  F_local = F;
+  F_local.params = xyParameters;
 
   // integrate out to +/- integLimit, which is multiple of exp. scale length
   // (NOTE: it seems like it would be faster to precalculate integLimit in the
   // Setup() call above; for some reason doing it that way makes the whole thing
   // take ~ 4 times longer!)
   integLimit = INTEGRATION_MULTIPLIER * R_bar_x;
-  totalIntensity = Integrate(F, -integLimit, integLimit);
+  totalIntensity = Integrate(F_local, -integLimit, integLimit);
 
   return totalIntensity;
 }
diff --git a/function_objects/func_triaxbar3d.cpp b/function_objects/func_triaxbar3d.cpp
index 3f06d1d..b88677c 100644
--- a/function_objects/func_triaxbar3d.cpp
+++ b/function_objects/func_triaxbar3d.cpp
@@ -164,7 +164,9 @@ double TriaxBar3D::GetValue( double x, double y )
   xyParameters[8] = q;
   xyParameters[9] = q_z;
   xyParameters[10] = twosigma_squared;
-  F.params = xyParameters;
+  // local copy of F, since GetValue can be called by several threads at once
+  gsl_function  F_local = F;
+  F_local.params = xyParameters;
 
   // [] NOTE: ideally, we should compute the integration limits directly, given
   // the known orientation of the ellipsoid, as the inner and outer boundaries of
@@ -173,7 +175,7 @@ double TriaxBar3D::GetValue( double x, double y )
 
   // integrate out to +/- integLimit, which is multiple of Gaussian sigma^2
   integLimit = INTEGRATION_MULTIPLIER * twosigma_squared;
-  totalIntensity = Integrate(F, -integLimit, integLimit);
+  totalIntensity = Integrate(F_local, -integLimit, integLimit);
 
   return totalIntensity;
 }
-- 
2.43.0


From 4f3f243451ca0dd37eb359eb1230152c984b1568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:48 +0000
Subject: [PATCH 34/90] fix: printed X0,Y0 limits ignored the image offset of
 the printed values

---
 core/model_object.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/core/model_object.cpp b/core/model_object.cpp
index 6ade1a9..f0020b0 100644
--- a/core/model_object.cpp
+++ b/core/model_object.cpp
@@ -1869,13 +1869,15 @@ int ModelObject::PrintModelParamsToStrings( vector<string> &stringVector, double
           newLine = PrintToString(XY_FORMAT_WITH_FIXED, prefix, "X0", x0);
         else
           newLine = PrintToString(XY_FORMAT_WITH_LIMITS, prefix, "X0", x0, 
-        				parameterInfoVect[k].limits[0], parameterInfoVect[k].limits[1]);
+        				parameterInfoVect[k].limits[0] + imageOffset_X0, 
+        				parameterInfoVect[k].limits[1] + imageOffset_X0);
         stringVector.push_back(newLine);
         if (parameterInfoVect[k + 1].fixed == 1)
           newLine = PrintToString(XY_FORMAT_WITH_FIXED, prefix, "Y0", y0);
         else
           newLine = PrintToString(XY_FORMAT_WITH_LIMITS, prefix, "Y0", y0, 
-        				parameterInfoVect[k + 1].limits[0], parameterInfoVect[k + 1].limits[1]);
+        				parameterInfoVect[k + 1].limits[0] + imageOffset_Y0, 
+        				parameterInfoVect[k + 1].limits[1] + imageOffset_Y0);
         stringVector.push_back(newLine);
       } else {
         if (errs != nullptr) {
-- 
2.43.0


From a1dbbbf411c96e76ed4ec1e371efcda652d881c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:25 +0000
Subject: [PATCH 35/90] fix: out-of-bounds read for X0 lines inside an
 unfinished optional-parameters section

---
 core/config_file_parser.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/config_file_parser.cpp b/core/config_file_parser.cpp
index cb4c980..e6caad2 100644
--- a/core/config_file_parser.cpp
+++ b/core/config_file_parser.cpp
@@ -312,6 +312,10 @@ int VetConfigFile( vector<string>& inputLines, const vector<int>& origLineNumber
           inOptionalParams = false;
           continue;
         }
+        // X0,Y0 lines always start a new function set, so they must be valid even if
+        // the optional-parameters section has not been ended
+        if ( (inputLines[i].find("X0", 0) == 0) || (inputLines[i].find("Y0", 0) == 0) )
+          inOptionalParams = false;
         if (! ValidParameterLine(inputLines[i], inOptionalParams)) {
 #ifdef USE_LOGGING
           LOG_F(2, "VetConfigFile: invalid parameter line (line %d)", i);
@@ -412,6 +416,7 @@ int ParseFunctionSection( vector<string>& inputLines, const bool mode2D,
   while (i < (int)inputLines.size()) {
     if (inputLines[i].find("X0", 0) == 0) {
       //printf("X0 detected (i = %d)\n", i);
+      inOptionalParams = false;
       fsetStartIndices.push_back(functionNumber);
       pLimitFound = AddParameterAndLimit(inputLines[i], parameterList, parameterLimits,
       										origLineNumbers[i]);
-- 
2.43.0


From f0023ad619263b607e5b107b3db33720f48f0855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:25 +0000
Subject: [PATCH 36/90] fix: ReadImageParamsFile did not report a missing file

---
 core/imageparams_file_parser.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/imageparams_file_parser.cpp b/core/imageparams_file_parser.cpp
index b180a3b..97c9645 100644
--- a/core/imageparams_file_parser.cpp
+++ b/core/imageparams_file_parser.cpp
@@ -573,6 +573,7 @@ int ReadImageParamsFile( const string& configFileName, int& nImages,
   inputFileStream.open(configFileName.c_str());
   if( ! inputFileStream ) {
      cerr << "Error opening input stream for file " << configFileName.c_str() << endl;
+     return -1;
   }
   int  currentLine = 0;   // 1-based for user
   while ( getline(inputFileStream, inputLine) ) {
-- 
2.43.0


From f8a09365c8a97c04ed134c6b16b340445b191bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:25 +0000
Subject: [PATCH 37/90] fix: wrong line numbers in error messages for
 image-info files

---
 core/imageparams_file_parser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/imageparams_file_parser.cpp b/core/imageparams_file_parser.cpp
index 97c9645..41a8ad0 100644
--- a/core/imageparams_file_parser.cpp
+++ b/core/imageparams_file_parser.cpp
@@ -584,7 +584,7 @@ int ReadImageParamsFile( const string& configFileName, int& nImages,
     // store non-empty, non-comment lines in a vector of strings
     if ((inputLine.size() > 0) && (inputLine[0] != '#')) {
       inputLines.push_back(inputLine);
-      origLineNumbers.push_back(k);
+      origLineNumbers.push_back(currentLine);
     }
   }
   inputFileStream.close();
@@ -631,7 +631,7 @@ int ReadImageParamsFile( const string& configFileName, int& nImages,
       imageFunctionsLines.clear();
       for (i = imageFunctionsStartIndex + 1; i < currentEndIndex; i++) {
         imageFunctionsLines.push_back(inputLines[i]);
-        functionSectionLineNumbers.push_back(i);
+        functionSectionLineNumbers.push_back(origLineNumbers[i]);
       }
       bool  paramLimitsExist = false;
       int status = ParseFunctionSection(imageFunctionsLines, true, funcNameList,
-- 
2.43.0


From f4500afa7ae4b0e493f32449e3861cf3e5f388d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:25 +0000
Subject: [PATCH 38/90] fix: limits of PIXEL_SCALE, IMAGE_PA left unset when
 none are given

---
 core/imageparams_file_parser.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/core/imageparams_file_parser.cpp b/core/imageparams_file_parser.cpp
index 41a8ad0..fd661c4 100644
--- a/core/imageparams_file_parser.cpp
+++ b/core/imageparams_file_parser.cpp
@@ -393,20 +393,22 @@ int StoreInfoFromLine( const string theLine, ImageInfo& imageInfo )
     std::tie(numericVal, paramLimits, status) = GetParameterAndLimits(theLine);
     imageInfo.pixelScale = numericVal;
     // special rule for PIXEL_SCALE: fixed unless limits were explicitly set
-    if (status == 2)
-      imageInfo.pixelScale_limitInfo = paramLimits;
-    else
+    imageInfo.pixelScale_limitInfo = paramLimits;
+    if (status != 2) {
+      memset(&imageInfo.pixelScale_limitInfo, 0, sizeof(mp_par));
       imageInfo.pixelScale_limitInfo.fixed = 1;
+    }
   }
       
   else if (parameterName == PARAMETER_NAME_IMAGE_PA) {
     std::tie(numericVal, paramLimits, status) = GetParameterAndLimits(theLine);
     imageInfo.rotation = numericVal;
     // special rule for IMAGE_PA: fixed unless limits were explicitly set
-    if (status == 2)
-      imageInfo.rotation_limitInfo = paramLimits;
-    else
+    imageInfo.rotation_limitInfo = paramLimits;
+    if (status != 2) {
+      memset(&imageInfo.rotation_limitInfo, 0, sizeof(mp_par));
       imageInfo.rotation_limitInfo.fixed = 1;
+    }
   }
       
   else if (parameterName == PARAMETER_NAME_FLUX_SCALE) {
-- 
2.43.0


From 6e91b2970d8488ccd30c8345fbfaad167e15230d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:45 +0000
Subject: [PATCH 39/90] fix: image-info files: keywords inside comments or
 values were recognised, malformed lines (incl. local functions) crashed or
 were accepted

---
 core/imageparams_file_parser.cpp | 108 ++++++++++++++++++++++++++-----
 1 file changed, 93 insertions(+), 15 deletions(-)

diff --git a/core/imageparams_file_parser.cpp b/core/imageparams_file_parser.cpp
index fd661c4..0312e32 100644
--- a/core/imageparams_file_parser.cpp
+++ b/core/imageparams_file_parser.cpp
@@ -81,6 +81,11 @@ const string PARAMETER_NAME_Y0 = "Y0";
 
 const string fixedIndicatorString = "fixed";
 
+const string IMAGE_START = "IMAGE_START";
+const string FUNCTIONS_START = "FUNCTIONS_START";
+const string OPTIONAL_PARAMS_START = "OPTIONAL_PARAMS_START";
+const string OPTIONAL_PARAMS_END = "OPTIONAL_PARAMS_END";
+
 
 
 void ReportConfigError( const vector<int> &errorCodes, 
@@ -110,13 +115,68 @@ void ReportConfigError( const vector<int> &errorCodes,
 
 
 
+/* ---------------- FUNCTION: IsKeywordLine ---------------------------- */
+// Returns true if the first word of the line (ignoring any comment) is the keyword
+static bool IsKeywordLine( const string& theLine, const string& keyword )
+{
+  string  currentLine = theLine;
+  vector<string>  stringPieces;
+
+  ChopComment(currentLine);
+  SplitString(currentLine, stringPieces);
+  return ( (! stringPieces.empty()) && (stringPieces[0] == keyword) );
+}
+
+
+/* ---------------- FUNCTION: IsFlagLine ------------------------------- */
+// Returns true if the line is one of the flags which do not take a value
+static bool IsFlagLine( const string& theLine )
+{
+  return ( IsKeywordLine(theLine, PARAMETER_FLAG_MASK_ZERO_IS_GOOD) ||
+  		IsKeywordLine(theLine, PARAMETER_FLAG_MASK_ZERO_IS_BAD) ||
+  		IsKeywordLine(theLine, PARAMETER_FLAG_ERRORS_ARE_SIGMAS) ||
+  		IsKeywordLine(theLine, PARAMETER_FLAG_ERRORS_ARE_VARIANCES) ||
+  		IsKeywordLine(theLine, PARAMETER_FLAG_ERRORS_ARE_WEIGHTS) );
+}
+
+
+/* ---------------- FUNCTION: ValidImageInfoLine ----------------------- */
+// Returns true if the line is a well-formatted description of an image property
+static bool ValidImageInfoLine( const string& theLine )
+{
+  string  currentLine = theLine;
+  vector<string>  stringPieces, subPieces;
+
+  if (IsFlagLine(currentLine))
+    return true;
+  // parameters with optional limits must have proper numerical values and limits
+  if ( IsKeywordLine(currentLine, PARAMETER_NAME_PIXEL_SCALE) ||
+  		IsKeywordLine(currentLine, PARAMETER_NAME_IMAGE_PA) ||
+  		IsKeywordLine(currentLine, PARAMETER_NAME_FLUX_SCALE) ||
+  		IsKeywordLine(currentLine, PARAMETER_NAME_X0) ||
+  		IsKeywordLine(currentLine, PARAMETER_NAME_Y0) )
+    return ValidParameterLine(currentLine, false);
+  if (! ValidParameterLine(currentLine, true))
+    return false;
+  // image sizes must be a pair of values
+  if ( IsKeywordLine(currentLine, PARAMETER_NAME_NCOLS_NROWS) ||
+  		IsKeywordLine(currentLine, PARAMETER_NAME_NROWS_NCOLS) ) {
+    SplitString(currentLine, stringPieces);   // ValidParameterLine has removed comments
+    SplitString(stringPieces[1], subPieces, ",");
+    return (subPieces.size() >= 2);
+  }
+  return true;
+}
+
+
 bool VetInputLines( const vector<string> &inputLines, const vector<int> &origLineNumbers,
 					vector<int> &errorCodes, vector<int> &badLineNumbers )
 {
   int  i, nInputLines;
   int  nErrors = 0;
   bool  imageSectionFound = false;
-  bool  dataFound = false;
+  bool  inFunctionSection = false;
+  bool  inOptionalParams = false;
 
   // check for erroneous input (no input lines, no original line numbers)
   if (inputLines.empty()) {
@@ -134,7 +194,7 @@ bool VetInputLines( const vector<string> &inputLines, const vector<int> &origLin
   i = 0;
   nInputLines = inputLines.size();
   while (i < nInputLines) {
-    if (inputLines[i].find("IMAGE_START", 0) != string::npos) {
+    if (IsKeywordLine(inputLines[i], IMAGE_START)) {
       imageSectionFound = true;
       break;
     }
@@ -145,17 +205,33 @@ bool VetInputLines( const vector<string> &inputLines, const vector<int> &origLin
   for (i = 0; i < nInputLines; i++) {
     // need to copy string so ValidParameterLine() can accept & operate on it.
     string currentLine = inputLines[i];
-    if (currentLine.find("IMAGE_START", 0) != string::npos) {
-      imageSectionFound = true;
+    bool  validLine = true;
+    if (IsKeywordLine(currentLine, IMAGE_START)) {
+      inFunctionSection = inOptionalParams = false;
       continue;
     }
-    // Currently, we have two possibilities: FUNCTIONS_START or a parameter line
-    if (! (currentLine.find("FUNCTIONS_START", 0) != string::npos)) {
-      if (! ValidParameterLine(currentLine, true)) {
-        badLineNumbers.push_back(origLineNumbers[i]);
-        errorCodes.push_back(IMAGEPARAMS_FILE_ERROR_BADLINE);
-        nErrors += 1;
-      }
+    if (IsKeywordLine(currentLine, FUNCTIONS_START) && (! inFunctionSection)) {
+      inFunctionSection = true;
+      inOptionalParams = false;
+      continue;
+    }
+    if (! inFunctionSection)
+      validLine = ValidImageInfoLine(currentLine);
+    else if (currentLine.find(OPTIONAL_PARAMS_START, 0) == 0)
+      inOptionalParams = true;
+    else if (currentLine.find(OPTIONAL_PARAMS_END, 0) == 0)
+      inOptionalParams = false;
+    else {
+      // X0,Y0 lines always start a new function set
+      if ( (currentLine.find("X0", 0) == 0) || (currentLine.find("Y0", 0) == 0) )
+        inOptionalParams = false;
+      validLine = ValidParameterLine(currentLine,
+      								(inOptionalParams || IsKeywordLine(currentLine, "FUNCTION")));
+    }
+    if (! validLine) {
+      badLineNumbers.push_back(origLineNumbers[i]);
+      errorCodes.push_back(IMAGEPARAMS_FILE_ERROR_BADLINE);
+      nErrors += 1;
     }
   }
 
@@ -359,14 +435,16 @@ std::tuple<double, mp_par, int> GetParameterAndLimits( const string theLine )
 // appropriate info in the input ImageInfo object
 // We assume that theLine has had leading and trailing whitespace (including
 // newlines) removed before this function is called.
-int StoreInfoFromLine( const string theLine, ImageInfo& imageInfo )
+int StoreInfoFromLine( const string inputLine, ImageInfo& imageInfo )
 {
+  string  theLine = inputLine;
   double  numericVal;
   int  status;
   vector<string>  stringPieces;
   mp_par  paramLimits;
   string  parameterName, stringVal;
   
+  ChopComment(theLine);
   SplitString(theLine, stringPieces);
   parameterName = stringPieces[0];
     
@@ -537,7 +615,7 @@ int AddInfoFromLines( const vector<string>& lines, vector<ImageInfo>& imageInfoL
   int  returnVal = 0;
   
   for (int i = 0; i < nLines; i++) {
-    if (lines[i].find("FUNCTIONS_START", 0) != string::npos) {
+    if (IsKeywordLine(lines[i], FUNCTIONS_START)) {
       returnVal = i;
       break;
     }
@@ -605,7 +683,7 @@ int ReadImageParamsFile( const string& configFileName, int& nImages,
 
   // look for IMAGE_START to chop up input into per-image sections
   for (i = 0; i < nInputLines; i++) {
-    if (inputLines[i].find("IMAGE_START", 0) != string::npos)
+    if (IsKeywordLine(inputLines[i], IMAGE_START))
       imageStartIndices.push_back(i);
   }
   nImages = imageStartIndices.size();
@@ -638,7 +716,7 @@ int ReadImageParamsFile( const string& configFileName, int& nImages,
       bool  paramLimitsExist = false;
       int status = ParseFunctionSection(imageFunctionsLines, true, funcNameList,
 						funcLabelList, funcParams, funcParamLimits, funcSetStartIndices,
-						paramLimitsExist, functionSectionLineNumbers);
+						paramLimitsExist, functionSectionLineNumbers, true);
 	  if (status < 0) {
 	    fprintf(stderr, "ERROR MESSAGE ABOUT FAILURE IN ParseFunctionSection\n");
 	    return -1;
-- 
2.43.0


From 872e3adde95612748820cb50c47bb45bd54150cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:07 +0000
Subject: [PATCH 40/90] fix: DESolver released arrays with delete instead of
 delete []

---
 solvers/DESolver.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/solvers/DESolver.cpp b/solvers/DESolver.cpp
index 6f2efdb..7296201 100644
--- a/solvers/DESolver.cpp
+++ b/solvers/DESolver.cpp
@@ -79,14 +79,14 @@ DESolver::DESolver( int dim, int popSize ) :
 
 DESolver::~DESolver( )
 {
-  if (trialSolution) delete trialSolution;
-  if (bestSolution) delete bestSolution;
-  if (popEnergy) delete popEnergy;
-  if (population) delete population;
+  if (trialSolution) delete [] trialSolution;
+  if (bestSolution) delete [] bestSolution;
+  if (popEnergy) delete [] popEnergy;
+  if (population) delete [] population;
   
-  if (oldValues) delete oldValues;
-  if (minBounds) delete minBounds;
-  if (maxBounds) delete maxBounds;
+  if (oldValues) delete [] oldValues;
+  if (minBounds) delete [] minBounds;
+  if (maxBounds) delete [] maxBounds;
 
   trialSolution = bestSolution = popEnergy = population = 0;
 }
-- 
2.43.0


From 2e42b8ed838ab757b77d6193bd98dab8b966d592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:07 +0000
Subject: [PATCH 41/90] fix: DESolver could use an index one past the end of
 the population or parameter vector

---
 solvers/DESolver.cpp | 39 ++++++++++++++++++++++++---------------
 solvers/DESolver.h   |  1 +
 2 files changed, 25 insertions(+), 15 deletions(-)

diff --git a/solvers/DESolver.cpp b/solvers/DESolver.cpp
index 7296201..09cbf4e 100644
--- a/solvers/DESolver.cpp
+++ b/solvers/DESolver.cpp
@@ -320,7 +320,7 @@ void DESolver::Best1Exp( int candidate )
   int n;
 
   SelectSamples(candidate, &r1, &r2);
-  n = (int)RandomUniform(0.0, (double)nDim);
+  n = RandomIndex(nDim);
 
   CopyVector(trialSolution, RowVector(population, candidate));
   for (int i = 0; (RandomUniform(0.0,1.0) < probability) && (i < nDim); i++) {
@@ -340,7 +340,7 @@ void DESolver::Rand1Exp( int candidate )
   int n;
 
   SelectSamples(candidate, &r1, &r2, &r3);
-  n = (int)RandomUniform(0.0, (double)nDim);
+  n = RandomIndex(nDim);
 
   CopyVector(trialSolution, RowVector(population, candidate));
   for (int i = 0; (RandomUniform(0.0,1.0) < probability) && (i < nDim); i++) {
@@ -360,7 +360,7 @@ void DESolver::RandToBest1Exp( int candidate )
   int n;
 
   SelectSamples(candidate, &r1, &r2);
-  n = (int)RandomUniform(0.0, (double)nDim);
+  n = RandomIndex(nDim);
 
   CopyVector(trialSolution, RowVector(population, candidate));
   for (int i = 0; (RandomUniform(0.0,1.0) < probability) && (i < nDim); i++) {
@@ -380,7 +380,7 @@ void DESolver::Best2Exp( int candidate )
   int n;
 
   SelectSamples(candidate, &r1, &r2, &r3, &r4);
-  n = (int)RandomUniform(0.0, (double)nDim);
+  n = RandomIndex(nDim);
 
   CopyVector(trialSolution, RowVector(population, candidate));
   for (int i = 0; (RandomUniform(0.0,1.0) < probability) && (i < nDim); i++) {
@@ -402,7 +402,7 @@ void DESolver::Rand2Exp( int candidate )
   int n;
 
   SelectSamples(candidate, &r1, &r2, &r3, &r4, &r5);
-  n = (int)RandomUniform(0.0, (double)nDim);
+  n = RandomIndex(nDim);
 
   CopyVector(trialSolution, RowVector(population, candidate));
   for (int i = 0; (RandomUniform(0.0,1.0) < probability) && (i < nDim); i++) {
@@ -424,7 +424,7 @@ void DESolver::Best1Bin( int candidate )
   int n;
 
   SelectSamples(candidate, &r1, &r2);
-  n = (int)RandomUniform(0.0, (double)nDim);
+  n = RandomIndex(nDim);
 
   CopyVector(trialSolution, RowVector(population, candidate));
   for (int i = 0; i < nDim; i++) {
@@ -445,7 +445,7 @@ void DESolver::Rand1Bin( int candidate )
   int n;
 
   SelectSamples(candidate, &r1, &r2, &r3);
-  n = (int)RandomUniform(0.0, (double)nDim);
+  n = RandomIndex(nDim);
 
   CopyVector(trialSolution, RowVector(population, candidate));
   for (int i = 0; i < nDim; i++) {
@@ -466,7 +466,7 @@ void DESolver::RandToBest1Bin( int candidate )
   int n;
 
   SelectSamples(candidate, &r1, &r2);
-  n = (int)RandomUniform(0.0, (double)nDim);
+  n = RandomIndex(nDim);
 
   CopyVector(trialSolution, RowVector(population, candidate));
   for (int i = 0; i < nDim; i++) {
@@ -487,7 +487,7 @@ void DESolver::Best2Bin( int candidate )
   int n;
 
   SelectSamples(candidate, &r1, &r2, &r3, &r4);
-  n = (int)RandomUniform(0.0, (double)nDim);
+  n = RandomIndex(nDim);
 
   CopyVector(trialSolution, RowVector(population, candidate));
   for (int i = 0; i < nDim; i++) {
@@ -510,7 +510,7 @@ void DESolver::Rand2Bin( int candidate )
   int n;
 
   SelectSamples(candidate, &r1, &r2, &r3, &r4, &r5);
-  n = (int)RandomUniform(0.0, (double)nDim);
+  n = RandomIndex(nDim);
 
   CopyVector(trialSolution, RowVector(population, candidate));
   for (int i = 0; i < nDim; i++) {
@@ -530,31 +530,31 @@ void DESolver::SelectSamples( int candidate, int *r1, int *r2, int *r3, int *r4,
 {
   if (r1) {
     do {
-      *r1 = (int)RandomUniform(0.0, (double)nPop);
+      *r1 = RandomIndex(nPop);
     } while (*r1 == candidate);
   }
 
   if (r2) {
     do {
-      *r2 = (int)RandomUniform(0.0, (double)nPop);
+      *r2 = RandomIndex(nPop);
     } while ((*r2 == candidate) || (*r2 == *r1));
   }
 
   if (r3) {
     do {
-      *r3 = (int)RandomUniform(0.0, (double)nPop);
+      *r3 = RandomIndex(nPop);
     } while ((*r3 == candidate) || (*r3 == *r2) || (*r3 == *r1));
   }
 
   if (r4) {
     do {
-      *r4 = (int)RandomUniform(0.0, (double)nPop);
+      *r4 = RandomIndex(nPop);
     } while ((*r4 == candidate) || (*r4 == *r3) || (*r4 == *r2) || (*r4 == *r1));
   }
 
   if (r5) {
     do {
-      *r5 = (int)RandomUniform(0.0, (double)nPop);
+      *r5 = RandomIndex(nPop);
     } while ((*r5 == candidate) || (*r5 == *r4) || (*r5 == *r3)
                           || (*r5 == *r2) || (*r5 == *r1));
   }
@@ -573,6 +573,15 @@ double DESolver::RandomUniform( double minValue, double maxValue )
 }
 
 
+/// Returns a random integer between 0 and nValues - 1 (genrand_real1 can return 1.0)
+int DESolver::RandomIndex( int nValues )
+{
+  int  index = (int)RandomUniform(0.0, (double)nValues);
+  
+  return (index < nValues) ? index : nValues - 1;
+}
+
+
 /// Function added by PE: test for convergence
 /// If the last three stored objective-function values (values are stored every 10
 /// generations) are all < TOLERANCE, then we decide that we have converged.
diff --git a/solvers/DESolver.h b/solvers/DESolver.h
index 01538cc..c158fa0 100644
--- a/solvers/DESolver.h
+++ b/solvers/DESolver.h
@@ -91,6 +91,7 @@ protected:
   void SelectSamples( int candidate, int *r1, int *r2=0, int *r3=0, 
 												int *r4=0, int *r5=0 );
   double RandomUniform( double min, double max );
+  int RandomIndex( int nValues );
 
   int nDim;
   int nPop;
-- 
2.43.0


From bc5011d0958e5c6145595aea9e8f09310dfcde1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:39 +0000
Subject: [PATCH 42/90] fix: round-off could put differential-evolution
 parameters just outside their limits

---
 solvers/DESolver.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/solvers/DESolver.cpp b/solvers/DESolver.cpp
index 09cbf4e..baaaded 100644
--- a/solvers/DESolver.cpp
+++ b/solvers/DESolver.cpp
@@ -233,6 +233,8 @@ int DESolver::Solve( int maxGenerations, int verbose )
           trialSolution[j] = minBounds[j] + RandomUniform(0.0,1.0)*(oldValues[j] - minBounds[j]);
         if (trialSolution[j] > maxBounds[j])
           trialSolution[j] = maxBounds[j] - RandomUniform(0.0,1.0)*(maxBounds[j] - oldValues[j]);
+        // guard against round-off
+        trialSolution[j] = min(max(trialSolution[j], minBounds[j]), maxBounds[j]);
       }
       
       // Test our newly mutated/bred trial parameter vector
-- 
2.43.0


From b6d882b7ea4d19dde8bff963e89d5a1d79aaef46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:15 +0000
Subject: [PATCH 43/90] fix: differential evolution returned all-zero
 parameters when no finite fit statistic below 1e20 was found or all
 parameters are fixed

---
 solvers/DESolver.cpp | 26 +++++++++++++++++++++++---
 solvers/DESolver.h   |  1 +
 2 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/solvers/DESolver.cpp b/solvers/DESolver.cpp
index baaaded..eb9ae55 100644
--- a/solvers/DESolver.cpp
+++ b/solvers/DESolver.cpp
@@ -34,6 +34,7 @@
 #include <random>
 #include <algorithm>
 #include <iterator>
+#include <limits>
 
 using namespace std;
 
@@ -51,6 +52,7 @@ using namespace std;
 #define CopyVector(a,b) memcpy((a),(b),nDim*sizeof(double))
 
 const double DEFAULT_TOLERANCE = 1.0e-8;
+const double WORST_ENERGY = std::numeric_limits<double>::infinity();
 
 
 bool TestConverged( double *relativeDeltas, double ftol );
@@ -138,7 +140,7 @@ void DESolver::Setup( double *min, double *max, int deStrategy, double diffScale
         p = genrand_real1();
         Element(population,i,j) = min[j] + (sampleOffset + p)*intervalSize;
       }
-      popEnergy[i] = 1.0E20;
+      popEnergy[i] = WORST_ENERGY;
     }
   }
   else {
@@ -147,7 +149,7 @@ void DESolver::Setup( double *min, double *max, int deStrategy, double diffScale
  	for (i = 0; i < nPop; i++) {
       for (int j = 0; j < nDim; j++)
         Element(population,i,j) = RandomUniform(min[j], max[j]);
-      popEnergy[i] = 1.0E20;
+      popEnergy[i] = WORST_ENERGY;
     }
   }
 
@@ -214,7 +216,7 @@ int DESolver::Solve( int maxGenerations, int verbose )
   double  relativeDeltas[3] = {100.0, 100.0, 100.0};
   double  lastBestEnergy;
 
-  bestEnergy = 1.0E20;
+  bestEnergy = WORST_ENERGY;
   lastBestEnergy = bestEnergy;
 
   bAtSolution = false;
@@ -258,6 +260,7 @@ int DESolver::Solve( int maxGenerations, int verbose )
       fprintf(stderr, "\n*** User-requested termination of the fit...\n");
       generations = generation;
       bAtSolution = true;
+      CheckForSolution();
       return DE_SIGINT;
     }
 #endif
@@ -304,10 +307,27 @@ int DESolver::Solve( int maxGenerations, int verbose )
   }
   
   generations = generation;
+  CheckForSolution();
   return DE_MAX_ITERATIONS;
 }
 
 
+// If no valid (finite) energy has been found -- or if there are no free parameters --
+// then bestSolution has not been set; use a parameter vector within the limits.
+void DESolver::CheckForSolution( )
+{
+  bool  dummy = false;
+  
+  if (bestEnergy < WORST_ENERGY)
+    return;
+  for (int j = 0; j < nDim; j++) {
+    bestSolution[j] = (nPop > 0) ? population[j] : minBounds[j];
+    bestSolution[j] = min(max(bestSolution[j], minBounds[j]), maxBounds[j]);
+  }
+  bestEnergy = EnergyFunction(bestSolution, dummy);
+}
+
+
 void DESolver::StoreSolution( double *theSolution )
 {
   for (int i = 0; i < nDim; i++)
diff --git a/solvers/DESolver.h b/solvers/DESolver.h
index c158fa0..193948a 100644
--- a/solvers/DESolver.h
+++ b/solvers/DESolver.h
@@ -92,6 +92,7 @@ protected:
 												int *r4=0, int *r5=0 );
   double RandomUniform( double min, double max );
   int RandomIndex( int nValues );
+  void CheckForSolution( );
 
   int nDim;
   int nPop;
-- 
2.43.0


From 283fb53c97c9f94807bd00ae7172a0f399d5b843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:34 +0000
Subject: [PATCH 44/90] fix: Levenberg-Marquardt solver reported the statistic
 of a rejected step as best-fit value

---
 solvers/mpfit.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/solvers/mpfit.cpp b/solvers/mpfit.cpp
index 4c7e31f..92f60e1 100644
--- a/solvers/mpfit.cpp
+++ b/solvers/mpfit.cpp
@@ -1049,8 +1049,8 @@ int mpfit( mp_func funct, int m, int npar, double *xall, mp_par *pars, mp_config
   }      
 
   if (result) {
-    result->bestnorm = mp_dmax1(fnorm,fnorm1);
-    result->bestnorm *= result->bestnorm;
+    // fnorm corresponds to the returned parameters (fnorm1 may be that of a rejected step)
+    result->bestnorm = fnorm*fnorm;
     result->orignorm = orignorm;
     result->status   = info;
     result->niter    = iter;
-- 
2.43.0


From c89505d0b1f15a097f9e278a92e9d7368ea4bda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:34 +0000
Subject: [PATCH 45/90] fix: number of function evaluations reported by N-M and
 NLopt fits included those of earlier fits

---
 solvers/nlopt_fit.cpp     | 1 +
 solvers/nmsimplex_fit.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/solvers/nlopt_fit.cpp b/solvers/nlopt_fit.cpp
index 0452a2f..d0fe439 100644
--- a/solvers/nlopt_fit.cpp
+++ b/solvers/nlopt_fit.cpp
@@ -316,6 +316,7 @@ int NLOptFit( int nParamsTot, double *paramVector, vector<mp_par> parameterLimit
 
   // Specify level of verbosity and start the optimization
   verboseOutput = verbose;
+  funcCallCount = 0;
   result = nlopt_optimize(theOptimizer, paramVector, &finalStatisticVal);
   if (verbose >= 0)
     InterpretResult(result, algorithmName);
diff --git a/solvers/nmsimplex_fit.cpp b/solvers/nmsimplex_fit.cpp
index 1fa3311..e80602d 100644
--- a/solvers/nmsimplex_fit.cpp
+++ b/solvers/nmsimplex_fit.cpp
@@ -220,6 +220,7 @@ int NMSimplexFit( const int nParamsTot, double *paramVector, vector<mp_par> para
   
   // Specify level of verbosity and start the optimization
   verboseOutput = verbose;
+  funcCallCount = 0;
   result = nlopt_optimize(optimizer, paramVector, &finalStatisticVal);
   if (verbose >= 0) {
     string interpretedResult;
-- 
2.43.0


From 6d6f901558e23810f14c86707e719ba9f9e7cbf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:34 +0000
Subject: [PATCH 46/90] fix: N-M and NLopt solvers ignored parameter limits
 with only one side limited

---
 solvers/nlopt_fit.cpp     | 10 ++++++----
 solvers/nmsimplex_fit.cpp | 10 ++++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/solvers/nlopt_fit.cpp b/solvers/nlopt_fit.cpp
index d0fe439..48bc67a 100644
--- a/solvers/nlopt_fit.cpp
+++ b/solvers/nlopt_fit.cpp
@@ -284,10 +284,12 @@ int NLOptFit( int nParamsTot, double *paramVector, vector<mp_par> parameterLimit
       minParamValues[i] = paramVector[i];
       maxParamValues[i] = paramVector[i];
     }
-    else if ((parameterLimits[i].limited[0] == 1) && (parameterLimits[i].limited[1] == 1)) {
-      // user specified parameter limits for this parameter
-      minParamValues[i] = parameterLimits[i].limits[0];
-      maxParamValues[i] = parameterLimits[i].limits[1];
+    else {
+      // user specified parameter limit(s) for this parameter
+      if (parameterLimits[i].limited[0] == 1)
+        minParamValues[i] = parameterLimits[i].limits[0];
+      if (parameterLimits[i].limited[1] == 1)
+        maxParamValues[i] = parameterLimits[i].limits[1];
     }
   }
 
diff --git a/solvers/nmsimplex_fit.cpp b/solvers/nmsimplex_fit.cpp
index e80602d..0d85091 100644
--- a/solvers/nmsimplex_fit.cpp
+++ b/solvers/nmsimplex_fit.cpp
@@ -187,10 +187,12 @@ int NMSimplexFit( const int nParamsTot, double *paramVector, vector<mp_par> para
       minParamValues[i] = paramVector[i];
       maxParamValues[i] = paramVector[i];
     }
-    else if ((parameterLimits[i].limited[0] == 1) && (parameterLimits[i].limited[1] == 1)) {
-      // user specified parameter limits for this parameter
-      minParamValues[i] = parameterLimits[i].limits[0];
-      maxParamValues[i] = parameterLimits[i].limits[1];
+    else {
+      // user specified parameter limit(s) for this parameter
+      if (parameterLimits[i].limited[0] == 1)
+        minParamValues[i] = parameterLimits[i].limits[0];
+      if (parameterLimits[i].limited[1] == 1)
+        maxParamValues[i] = parameterLimits[i].limits[1];
     }
   }
   
-- 
2.43.0


From 793f1f43a7239e08fb7fd0460958c7f1a3564b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:11 +0000
Subject: [PATCH 47/90] fix: differential evolution with Latin hypercube
 sampling ignored the user-specified seed

---
 solvers/DESolver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solvers/DESolver.cpp b/solvers/DESolver.cpp
index eb9ae55..cef5f41 100644
--- a/solvers/DESolver.cpp
+++ b/solvers/DESolver.cpp
@@ -121,7 +121,7 @@ void DESolver::Setup( double *min, double *max, int deStrategy, double diffScale
     // prep Latin hypercube sampling --> sampleIndices
     vector< vector<int> >  sampleIndices;   // [nDim][nPop]
     random_device rd;
-    mt19937 g(rd());
+    mt19937 g((rngSeed > 0) ? rngSeed : rd());
     vector<int> singleParamSampleIndices(nPop);
   
     // set up the shuffled indices
-- 
2.43.0


From d9a262b19975bb1928489e312bb7d4ae21ab1a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:41 +0000
Subject: [PATCH 48/90] fix: N-M and NLopt solvers could evaluate the model
 with NaN parameter values

---
 solvers/nlopt_fit.cpp     | 5 +++++
 solvers/nmsimplex_fit.cpp | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/solvers/nlopt_fit.cpp b/solvers/nlopt_fit.cpp
index 48bc67a..381ba3b 100644
--- a/solvers/nlopt_fit.cpp
+++ b/solvers/nlopt_fit.cpp
@@ -123,6 +123,11 @@ double myfunc_nlopt_gen( unsigned n, const double *x, double *grad, void *my_fun
   double  fitStatistic;
   nlopt_result  junk;
   
+  // some algorithms (e.g., PRAXIS) can generate non-finite parameter values
+  for (unsigned i = 0; i < n; i++)
+    if (! std::isfinite(x[i]))
+      return HUGE_VAL;
+
   fitStatistic = theModel->GetFitStatistic(params);
   
   // feedback to user
diff --git a/solvers/nmsimplex_fit.cpp b/solvers/nmsimplex_fit.cpp
index 0d85091..340e410 100644
--- a/solvers/nmsimplex_fit.cpp
+++ b/solvers/nmsimplex_fit.cpp
@@ -90,6 +90,11 @@ double myfunc_nlopt( unsigned n, const double *x, double *grad, void *my_func_da
   double  fitStatistic;
   nlopt_result  junk;
   
+  // some algorithms (e.g., PRAXIS) can generate non-finite parameter values
+  for (unsigned i = 0; i < n; i++)
+    if (! std::isfinite(x[i]))
+      return HUGE_VAL;
+
   fitStatistic = theModel->GetFitStatistic(params);
   
   // feedback to user
-- 
2.43.0


From 46d7ff4d52a741417b97f5430e2ea86dd63e2cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:35 +0000
Subject: [PATCH 49/90] fix: stopped N-M and NLopt fits could return parameters
 worse than the best found, or uninitialised values

---
 solvers/nlopt_fit.cpp     | 14 ++++++++++++++
 solvers/nmsimplex_fit.cpp | 19 ++++++++++++++++---
 2 files changed, 30 insertions(+), 3 deletions(-)

diff --git a/solvers/nlopt_fit.cpp b/solvers/nlopt_fit.cpp
index 381ba3b..c8a0d76 100644
--- a/solvers/nlopt_fit.cpp
+++ b/solvers/nlopt_fit.cpp
@@ -52,6 +52,7 @@
 //  conf.xtol = 1e-10;   [relative changes in parameter values]
 
 #include <string>
+#include <vector>
 #include <sstream>
 #include <map>
 #include <stdio.h>
@@ -81,6 +82,10 @@ const int  REPORT_STEPS_PER_VERBOSE_OUTPUT = 5;
 // Module variables -- used to control user feedback within myfunc_nlopt_gen
 static int  verboseOutput;
 static int  funcCallCount = 0;
+// best solution found so far (NLopt algorithms do not always return this, especially if
+// they have been stopped)
+static double  bestStatisticVal;
+static vector<double>  bestParams;
 nlopt_opt  theOptimizer;
 string  currentSolverName;
 
@@ -129,6 +134,10 @@ double myfunc_nlopt_gen( unsigned n, const double *x, double *grad, void *my_fun
       return HUGE_VAL;
 
   fitStatistic = theModel->GetFitStatistic(params);
+  if (fitStatistic < bestStatisticVal) {
+    bestStatisticVal = fitStatistic;
+    bestParams.assign(x, x + n);
+  }
   
   // feedback to user
   funcCallCount++;
@@ -324,7 +333,12 @@ int NLOptFit( int nParamsTot, double *paramVector, vector<mp_par> parameterLimit
   // Specify level of verbosity and start the optimization
   verboseOutput = verbose;
   funcCallCount = 0;
+  bestStatisticVal = std::isnan(initialStatisticVal) ? HUGE_VAL : initialStatisticVal;
+  bestParams.assign(paramVector, paramVector + nParamsTot);
   result = nlopt_optimize(theOptimizer, paramVector, &finalStatisticVal);
+  for (int i = 0; i < nParamsTot; i++)
+    paramVector[i] = bestParams[i];
+  finalStatisticVal = bestStatisticVal;
   if (verbose >= 0)
     InterpretResult(result, algorithmName);
 
diff --git a/solvers/nmsimplex_fit.cpp b/solvers/nmsimplex_fit.cpp
index 340e410..3c17c6a 100644
--- a/solvers/nmsimplex_fit.cpp
+++ b/solvers/nmsimplex_fit.cpp
@@ -47,6 +47,7 @@
 
 
 #include <string>
+#include <vector>
 #include <sstream>
 #include <stdio.h>
 #include <stdlib.h>
@@ -74,6 +75,10 @@ const int  REPORT_STEPS_PER_VERBOSE_OUTPUT = 5;
 // Module variables -- used to control user feedback within myfunc_nlopt
 static int  verboseOutput;
 static int  funcCallCount = 0;
+// best solution found so far (NLopt algorithms do not always return this, especially if
+// they have been stopped)
+static double  bestStatisticVal;
+static vector<double>  bestParams;
 nlopt_opt  optimizer;
 
 
@@ -96,6 +101,10 @@ double myfunc_nlopt( unsigned n, const double *x, double *grad, void *my_func_da
       return HUGE_VAL;
 
   fitStatistic = theModel->GetFitStatistic(params);
+  if (fitStatistic < bestStatisticVal) {
+    bestStatisticVal = fitStatistic;
+    bestParams.assign(x, x + n);
+  }
   
   // feedback to user
   funcCallCount++;
@@ -221,14 +230,18 @@ int NMSimplexFit( const int nParamsTot, double *paramVector, vector<mp_par> para
   nlopt_set_lower_bounds(optimizer, minParamValues);
   nlopt_set_upper_bounds(optimizer, maxParamValues);
   
-  // record initial fit-statistic value, if we're going to save it
-  if (solverResults != nullptr)
-    initialStatisticVal = theModel->GetFitStatistic(paramVector);
+  // record initial fit-statistic value
+  initialStatisticVal = theModel->GetFitStatistic(paramVector);
   
   // Specify level of verbosity and start the optimization
   verboseOutput = verbose;
   funcCallCount = 0;
+  bestStatisticVal = std::isnan(initialStatisticVal) ? HUGE_VAL : initialStatisticVal;
+  bestParams.assign(paramVector, paramVector + nParamsTot);
   result = nlopt_optimize(optimizer, paramVector, &finalStatisticVal);
+  for (int i = 0; i < nParamsTot; i++)
+    paramVector[i] = bestParams[i];
+  finalStatisticVal = bestStatisticVal;
   if (verbose >= 0) {
     string interpretedResult;
     GetInterpretation_NM((int)result, interpretedResult);
-- 
2.43.0


From 19cf879a6c3c453b11011f93ee0cf92bc542e562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:06 +0000
Subject: [PATCH 50/90] fix: NLopt solvers could loop forever after a
 non-finite fit statistic

---
 solvers/nlopt_fit.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/solvers/nlopt_fit.cpp b/solvers/nlopt_fit.cpp
index c8a0d76..f9c600f 100644
--- a/solvers/nlopt_fit.cpp
+++ b/solvers/nlopt_fit.cpp
@@ -76,6 +76,7 @@ const int  MAXEVAL_BASE = 10000;
 const double  FTOL = 1.0e-8;
 const double  XTOL = 1.0e-8;
 const int  FUNCS_PER_REPORTING_STEP = 20;
+const double  LARGE_STATISTIC = 1.0e100;
 const int  REPORT_STEPS_PER_VERBOSE_OUTPUT = 5;
 
 
@@ -131,7 +132,7 @@ double myfunc_nlopt_gen( unsigned n, const double *x, double *grad, void *my_fun
   // some algorithms (e.g., PRAXIS) can generate non-finite parameter values
   for (unsigned i = 0; i < n; i++)
     if (! std::isfinite(x[i]))
-      return HUGE_VAL;
+      return LARGE_STATISTIC;
 
   fitStatistic = theModel->GetFitStatistic(params);
   if (fitStatistic < bestStatisticVal) {
@@ -163,6 +164,9 @@ double myfunc_nlopt_gen( unsigned n, const double *x, double *grad, void *my_fun
   }
 #endif
 
+  // some algorithms (e.g., COBYLA, NEWUOA) never end if they encounter non-finite values
+  if (! std::isfinite(fitStatistic))
+    return LARGE_STATISTIC;
   return(fitStatistic);
 }
 
-- 
2.43.0


From ba170198d2732ca6366a878bb33727b2d43a4121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:09 +0000
Subject: [PATCH 51/90] fix: image reading used uninitialised, zero or absurd
 image dimensions, an unchecked allocation, and left files open after errors

---
 core/image_io.cpp | 56 +++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 52 insertions(+), 4 deletions(-)

diff --git a/core/image_io.cpp b/core/image_io.cpp
index 711f71d..9d82534 100644
--- a/core/image_io.cpp
+++ b/core/image_io.cpp
@@ -90,6 +90,7 @@
 /* ------------------------ Include Files (Header Files )--------------- */
 
 #include <stdlib.h>
+#include <limits.h>
 #include <string>
 #include <vector>
 #include <tuple>
@@ -105,6 +106,7 @@
 
 /* ------------------- Function Prototypes ----------------------------- */
 static void PrintError( int status );
+static void CloseAfterError( fitsfile *imageFile_ptr );
 
 
 
@@ -183,7 +185,7 @@ std::tuple<int, int, int> GetImageSize( const std::string filename, const bool v
   int  status = 0;
   int  problems = 0;
   int  nfound;
-  long  naxes[2];
+  long  naxes[2] = {0, 0};
   int  n_columns = 0;
   int  n_rows = 0;
   
@@ -200,6 +202,7 @@ std::tuple<int, int, int> GetImageSize( const std::string filename, const bool v
   if (! CheckHDUForImage(imfile_ptr, currentHDU, &status)) {
     fprintf(stderr, "\n*** WARNING: Unable to find valid 2D image in extension %d (HDU %d) of %s!\n", 
     		currentHDU - 1, currentHDU, filename.c_str());
+    CloseAfterError(imfile_ptr);
     return std::make_tuple(n_columns, n_rows, -1);
   }  
 
@@ -209,6 +212,13 @@ std::tuple<int, int, int> GetImageSize( const std::string filename, const bool v
   if ( problems ) {
     fprintf(stderr, "\n*** WARNING: Problems reading FITS keywords from file \"%s\"!\n    FITSIO error messages follow:", filename.c_str());
     PrintError(status);
+    CloseAfterError(imfile_ptr);
+    return std::make_tuple(n_columns, n_rows, -1);
+  }
+  if ( (nfound < 2) || (naxes[0] < 1) || (naxes[1] < 1) || (naxes[0] > INT_MAX) || (naxes[1] > INT_MAX) ) {
+    fprintf(stderr, "\n*** WARNING: Invalid image dimensions (%ld x %ld) in FITS file \"%s\"!\n",
+    		naxes[0], naxes[1], filename.c_str());
+    CloseAfterError(imfile_ptr);
     return std::make_tuple(n_columns, n_rows, -1);
   }
   if (verbose)
@@ -247,7 +257,7 @@ double * ReadImageAsVector( const std::string filename, int *nColumns, int *nRow
   int  problems = 0;
   int  validHDU_flag = 0;
   int  nfound;
-  long  naxes[2];
+  long  naxes[2] = {0, 0};
   long  nPixelsTot;
   long  firstPixel[2] = {1, 1};
   int  n_rows, n_columns;
@@ -258,9 +268,14 @@ double * ReadImageAsVector( const std::string filename, int *nColumns, int *nRow
   // further operations
   validHDU_flag = CheckForImage(filename);
   if (validHDU_flag > 0)
-    fits_open_file(&imfile_ptr, filename.c_str(), READONLY, &status);
+    problems = fits_open_file(&imfile_ptr, filename.c_str(), READONLY, &status);
   else
     return nullptr;
+  if ( problems ) {
+    fprintf(stderr, "\n*** WARNING: Problems opening FITS file \"%s\"!\n    FITSIO error messages follow:", filename.c_str());
+    PrintError(status);
+    return nullptr;
+  }
 
   /* read the NAXIS1 and NAXIS2 keyword to get image size */
   problems = fits_read_keys_lng(imfile_ptr, "NAXIS", 1, 2, naxes, &nfound,
@@ -268,11 +283,19 @@ double * ReadImageAsVector( const std::string filename, int *nColumns, int *nRow
   if ( problems ) {
     fprintf(stderr, "\n*** WARNING: Problems reading FITS keywords from file \"%s\"!\n    FITSIO error messages follow:", filename.c_str());
     PrintError(status);
+    CloseAfterError(imfile_ptr);
     return nullptr;
   }
   if (verbose)
     printf("ReadImageAsVector: Image keywords: NAXIS1 = %ld, NAXIS2 = %ld\n", naxes[0], naxes[1]);
 
+  if ( (nfound < 2) || (naxes[0] < 1) || (naxes[1] < 1) || (naxes[0] > INT_MAX) || (naxes[1] > INT_MAX) ) {
+    fprintf(stderr, "\n*** WARNING: Invalid image dimensions (%ld x %ld) in FITS file \"%s\"!\n",
+    		naxes[0], naxes[1], filename.c_str());
+    CloseAfterError(imfile_ptr);
+    return nullptr;
+  }
+
   n_columns = naxes[0];      // FITS keyword NAXIS1 = # columns
   *nColumns = n_columns;
   n_rows = naxes[1];         // FITS keyword NAXIS2 = # rows
@@ -281,11 +304,19 @@ double * ReadImageAsVector( const std::string filename, int *nColumns, int *nRow
   
   // Read in the image data
   imageVector = fftw_alloc_real(nPixelsTot);
+  if (imageVector == nullptr) {
+    fprintf(stderr, "\n*** WARNING: Unable to allocate memory for image (%d x %d pixels) in FITS file \"%s\"!\n",
+    		n_columns, n_rows, filename.c_str());
+    CloseAfterError(imfile_ptr);
+    return nullptr;
+  }
   problems = fits_read_pix(imfile_ptr, TDOUBLE, firstPixel, nPixelsTot, nullptr, imageVector,
                             nullptr, &status);
   if ( problems ) {
     fprintf(stderr, "\n*** WARNING: Problems reading pixel data from FITS file \"%s\"!\n    FITSIO error messages follow:", filename.c_str());
     PrintError(status);
+    CloseAfterError(imfile_ptr);
+    fftw_free(imageVector);
     return nullptr;
   }
 
@@ -337,7 +368,12 @@ int SaveVectorAsImage( double *pixelVector, const std::string filename, int nCol
   /* Create the FITS file: */
   //    NOTE: need to prefix filename with "!" if we want to clobber existing file...
   finalFilename += filename;
-  fits_create_file(&imfile_ptr, finalFilename.c_str(), &status);
+  problems = fits_create_file(&imfile_ptr, finalFilename.c_str(), &status);
+  if ( problems ) {
+    fprintf(stderr, "\n*** WARNING: Problems creating FITS file \"%s\"!\n    FITSIO error messages follow:", filename.c_str());
+    PrintError(status);
+    return -1;
+  }
   /* Create the primary image (single-precision floating-point format) */
   fits_create_img(imfile_ptr, FLOAT_IMG, 2, naxes, &status);
   
@@ -356,6 +392,7 @@ int SaveVectorAsImage( double *pixelVector, const std::string filename, int nCol
   if ( problems ) {
     fprintf(stderr, "\n*** WARNING: Problems writing pixel data to FITS file \"%s\"!\n    FITSIO error messages follow:", filename.c_str());
     PrintError(status);
+    CloseAfterError(imfile_ptr);
     return -1;
   }
 
@@ -384,4 +421,15 @@ static void PrintError( int status )
 
 
 
+/* ---------------- FUNCTION: CloseAfterError ---------------------- */
+/// Closes a FITS file after some other operation on it has failed.
+static void CloseAfterError( fitsfile *imageFile_ptr )
+{
+  int  closeStatus = 0;
+
+  fits_close_file(imageFile_ptr, &closeStatus);
+}
+
+
+
 /* END OF FILE: image_io.cpp ------------------------------------------- */
-- 
2.43.0


From 2fd6a11c6906b2de502687cca6a6f62e4bdb91fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:09 +0000
Subject: [PATCH 52/90] fix: GetMaskAndErrorImages leaked the mask when the
 noise image failed; GetPsfImage ignored failure of GetImageSize

---
 core/getimages.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/core/getimages.cpp b/core/getimages.cpp
index c5b7e71..757c817 100644
--- a/core/getimages.cpp
+++ b/core/getimages.cpp
@@ -95,8 +95,14 @@ std::tuple<double *, double *, int> GetMaskAndErrorImages( int nColumns, int nRo
   if (errorFileName.size() > 0) {
     printf("Reading noise image (\"%s\") ...\n", errorFileName.c_str());
     std::tie(errorPixels, status) = GetAndCheckImage(errorFileName, "noise", nColumns, nRows);
-    if (status < 0)
+    if (status < 0) {
+      if (maskPixelsAllocated) {
+        fftw_free(maskPixels);
+        maskPixels = nullptr;
+        maskPixelsAllocated = false;
+      }
       return std::make_tuple(maskPixels, errorPixels, -1);
+    }
     errorPixelsAllocated = true;
     returnVal += 2;
   }
@@ -124,6 +130,11 @@ std::tuple<double *, int, int, int> GetPsfImage( const string &psfFileName )
     return std::make_tuple(psfPixels, 0,0, -1);
 
   std::tie(nColumns_psf, nRows_psf, status) = GetImageSize(psfFileName);
+  if (status < 0) {
+    fftw_free(psfPixels);
+    psfPixels = nullptr;
+    return std::make_tuple(psfPixels, 0,0, -1);
+  }
   long nPixels_psf = (long)nColumns_psf * (long)nRows_psf;
   printf("naxis1 [# pixels/row] = %d, naxis2 [# pixels/col] = %d; nPixels_tot = %ld\n", 
          nColumns_psf, nRows_psf, nPixels_psf);
-- 
2.43.0


From 707c1a8ea5401d685893d91f9aee0de2c90d98be Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 01:29:33 +0000
Subject: [PATCH 53/90] fix: separations of function sets were multiplied, not
 divided, by an image's pixel scale (unlike sizes)

---
 core/paramvector_processing.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/core/paramvector_processing.cpp b/core/paramvector_processing.cpp
index 90cb484..84cec3f 100644
--- a/core/paramvector_processing.cpp
+++ b/core/paramvector_processing.cpp
@@ -96,9 +96,10 @@ std::tuple<double, double, int> CalculateOffset_X0Y0( double X0_0_ref, double Y0
   double deltaX_n_im = deltaX_n_ref*cosTheta + deltaY_n_ref*sinTheta;
   double deltaY_n_im = -deltaX_n_ref*sinTheta + deltaY_n_ref*cosTheta;
 
-  // transform scaled offsets to current image
-  double X0_out = X0_0_im + pixScale_im*deltaX_n_im;
-  double Y0_out = Y0_0_im + pixScale_im*deltaY_n_im;
+  // transform scaled offsets to current image (whose pixels are pixScale_im times as
+  // large as those of the reference image)
+  double X0_out = X0_0_im + deltaX_n_im/pixScale_im;
+  double Y0_out = Y0_0_im + deltaY_n_im/pixScale_im;
   
   return std::make_tuple(X0_out, Y0_out, 0);
 }
-- 
2.43.0


From 9efb655682174b563c137623217e690280728250 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 01:29:33 +0000
Subject: [PATCH 54/90] fix: multi-image models ignored image offsets (or used
 the wrong image's), names and table columns of per-image function parameters

---
 core/model_object_multimage.cpp | 91 ++++++++++++++++-----------------
 core/utilities_multimfit.cpp    | 65 ++++-------------------
 2 files changed, 53 insertions(+), 103 deletions(-)

diff --git a/core/model_object_multimage.cpp b/core/model_object_multimage.cpp
index 20fb289..2dfb420 100644
--- a/core/model_object_multimage.cpp
+++ b/core/model_object_multimage.cpp
@@ -289,6 +289,11 @@ int ModelObjectMultImage::FinalModelSetup( )
   }
   nParamsTot += nPerImageParams;
   
+  // Names of per-image (local) function parameters follow those of the global ones
+  for (int i = 0; i < nModelObjects; i++)
+    for (int j = 0; j < nPerImageParamsForModelObjects[i]; j++)
+      parameterLabels.push_back(modelObjectsVect[i]->GetParameterName(nGlobalFuncParams + j));
+  
   // This must be done *after* we've computed the final values of nParamsTot, etc.
   SetupParamHolder();
   
@@ -656,7 +661,19 @@ void ModelObjectMultImage::GetImageOffsets( double params[] )
     params[i*N_IMAGE_PARAMS - 2] = offset_x0;
     params[i*N_IMAGE_PARAMS - 1] = offset_y0;
   }
-  modelObjectsVect[0]->GetImageOffsets(params + nImageParams);
+  // Main model is in reference-image coordinates; per-image functions are in the
+  // coordinates of their own image
+  int  start = nImageParams + nGlobalFuncParams;
+  for (int i = 0; i < nModelObjects; i++) {
+    vector<double>  offsetsThisImage(nParamsForModelObjects[i] + 1, 0.0);
+    modelObjectsVect[i]->GetImageOffsets(offsetsThisImage.data());
+    if (i == 0)
+      for (int j = 0; j < nGlobalFuncParams; j++)
+        params[nImageParams + j] = offsetsThisImage[j];
+    for (int j = 0; j < nPerImageParamsForModelObjects[i]; j++)
+      params[start + j] = offsetsThisImage[nGlobalFuncParams + j];
+    start += nPerImageParamsForModelObjects[i];
+  }
 }
 
 
@@ -668,55 +685,18 @@ void ModelObjectMultImage::GetImageOffsets( double params[] )
 string ModelObjectMultImage::PrintModelParamsHorizontalString( const double params[], 
 																const string& separator )
 {
-  double  x0, y0, paramVal;
-  int  image1Offset_x0, image1Offset_y0;
-  int  nParamsThisFunc, k, indexOffset, nImageParams;
-  string  outputString = "";
-
-  // pixel offsets for reference image
-  std::tie(image1Offset_x0, image1Offset_y0) = modelObjectsVect[0]->GetImageOffsets();
-  // number of image-description parameters
-  nImageParams = (nModelObjects - 1)*N_IMAGE_PARAMS;
+  string outputString = "";
   
+  // pixel offsets (if any) for each X0,Y0 parameter
+  vector<double>  offsets(nParamsTot, 0.0);
+  GetImageOffsets(offsets.data());
+
   // Line should start with parameter value (no initial separator); we precede each 
   // subsequent parameter value with separator
-  for (int i = 1; i < nModelObjects; i++) {
-    int  start = (i - 1)*N_IMAGE_PARAMS;
-    int  offset_x0, offset_y0;
-    // pixel offsets for this image
-    std::tie(offset_x0, offset_y0) = modelObjectsVect[i]->GetImageOffsets();
-    for (int j = 0; j < N_IMAGE_PARAMS; j++) {
-      paramVal = params[start + j];
-      if (j == N_IMAGE_PARAMS - 2)
-        paramVal += offset_x0;
-      else if (j == N_IMAGE_PARAMS - 1)
-        paramVal += offset_y0;
-      if (! outputString.empty())
-        outputString += separator;
-      outputString += PrintToString("%#.10g", paramVal);
-    }
-  }
-
-  indexOffset = nImageParams;
-  for (int n = 0; n < nFunctions; n++) {
-    if (fsetStartFlags[n] == true) {
-      // start of new function set: extract x0,y0 and then skip over them
-      k = indexOffset;
-      x0 = params[k] + image1Offset_x0;
-      y0 = params[k + 1] + image1Offset_y0;
-      if (! outputString.empty())
-        outputString += separator;
-      outputString += PrintToString("%#.10g%s%#.10g", x0, separator.c_str(), y0);
-      indexOffset += 2;
-    }
-
-    // Now print the function and its parameters
-    nParamsThisFunc = paramSizes[n];
-    for (int i = 0; i < nParamsThisFunc; i++) {
-      paramVal = params[indexOffset + i];
-      outputString += PrintToString("%s%#.10g", separator.c_str(), paramVal);
-    }
-    indexOffset += paramSizes[n];
+  for (int i = 0; i < nParamsTot; i++) {
+    if (i > 0)
+      outputString += separator;
+    outputString += PrintToString("%#.10g", params[i] + offsets[i]);
   }
 
   return outputString;
@@ -748,7 +728,22 @@ string ModelObjectMultImage::GetParamHeader( )
   
   // get model-parameters part of header, chop off leading "# "
   baseModelParamHeader = modelObjectsVect[0]->GetParamHeader();
-  headerLine += baseModelParamHeader.substr(2, string::npos);
+  if (nPerImageParams == 0) {
+    headerLine += baseModelParamHeader.substr(2, string::npos);
+    return headerLine;
+  }
+
+  // there are local functions: global-model part first, then the local functions of
+  // each image in turn
+  for (int n = 0; n < nModelObjects; n++) {
+    vector<string>  names;
+    SplitString(modelObjectsVect[n]->GetParamHeader().substr(2, string::npos), names, "\t");
+    if (n == 0)
+      for (int j = 0; j < nGlobalFuncParams; j++)
+        headerLine += names[j] + "\t";
+    for (int j = nGlobalFuncParams; j < (int)names.size(); j++)
+      headerLine += PrintToString("%s_IM_%d\t", names[j].c_str(), n + 1);
+  }
   
   return headerLine;
 }
diff --git a/core/utilities_multimfit.cpp b/core/utilities_multimfit.cpp
index fe685f8..a0a18d8 100644
--- a/core/utilities_multimfit.cpp
+++ b/core/utilities_multimfit.cpp
@@ -35,63 +35,18 @@ void CorrectForImageOffsets( double *paramVect, vector<mp_par> &paramLimits,
 							ModelObjectMultImage *multImageModel )
 {
   int  nParamsTot = multImageModel->GetNParams();
-  int  nImages = multImageModel->GetNImages();
-  int  nImageParams = N_IMAGE_PARAMS * (nImages - 1);
-  int  xOffset_this, yOffset_this, xOffset_ref, yOffset_ref;
-  int  i_x0, i_y0;
-  
-//   for(int i = 0; i < nParamsTot; i++)
-//     printf("i = %d: name = %s\n", i, multImageModel->GetParameterName(i).c_str());
-    
-  // Apply offset fixes to image-description parameter X0,Y0 pairs, for each 
-  // extra image
-  for (int n = 1; n < nImages; n++) {
-    std::tie(xOffset_this,yOffset_this) = multImageModel->GetOffsetsForImage(n);
-//     printf("Offsets for image %d: %d,%d\n", n, xOffset_this,yOffset_this);
-    // assume that X0,Y0 are last two parameters for each image
-    i_x0 = n*N_IMAGE_PARAMS - 2;
-//     printf("  i_x0 = %d: paramVect[i_x0][i] = %.1f\n", i_x0, paramVect[i_x0]);
-    paramVect[i_x0] -= xOffset_this;
-    paramLimits[i_x0].offset = xOffset_this;
-    if (paramLimits[i_x0].limited[0] == 1)
-      paramLimits[i_x0].limits[0] -= xOffset_this;
-    if (paramLimits[i_x0].limited[1] == 1)
-      paramLimits[i_x0].limits[1] -= xOffset_this;
-//     printf("     paramVect[i_x0][i] = %.1f\n", paramVect[i_x0]);
-    i_y0 = i_x0 + 1;
-//     printf("  i_y0 = %d: paramVect[i_y0][i] = %.1f\n", i_y0, paramVect[i_y0]);
-    paramVect[i_y0] -= yOffset_this;
-    paramLimits[i_y0].offset = yOffset_this;
-    if (paramLimits[i_y0].limited[0] == 1)
-      paramLimits[i_y0].limits[0] -= yOffset_this;
-    if (paramLimits[i_y0].limited[1] == 1)
-      paramLimits[i_y0].limits[1] -= yOffset_this;
-//     printf("     paramVect[i_y0][i] = %.1f\n", paramVect[i_y0]);
-  }
-  
-  // Apply reference-image offsets to main model's function-block X0,Y0 sets
-  // (reference-image coordinates)
-  std::tie(xOffset_ref,yOffset_ref) = multImageModel->GetOffsetsForImage(0);
-//   printf("Offsets for reference image: %d,%d\n", xOffset_ref,yOffset_ref);
-  for (int i = nImageParams; i < nParamsTot; i++) {
-    if (multImageModel->GetParameterName(i) == X0_string) {
-//       printf("[X0:]     paramVect[%d] = %.1f\n", i, paramVect[i]);
-      paramVect[i] -= xOffset_ref;
-//       printf("     updated paramVect[%d] = %.1f\n", i, paramVect[i]);
-      paramLimits[i].offset = xOffset_ref;
-      if (paramLimits[i].limited[0] == 1)
-        paramLimits[i].limits[0] -= xOffset_ref;
-      if (paramLimits[i].limited[1] == 1)
-        paramLimits[i].limits[1] -= xOffset_ref;
-    } else if (multImageModel->GetParameterName(i) == Y0_string) {
-//       printf("[Y0:]     paramVect[%d] = %.1f\n", i, paramVect[i]);
-      paramVect[i] -= yOffset_ref;
-//       printf("     updated paramVect[%d] = %.1f\n", i, paramVect[i]);
-      paramLimits[i].offset = yOffset_ref;
+  vector<double>  offsets(nParamsTot, 0.0);
+
+  multImageModel->GetImageOffsets(offsets.data());
+
+  for (int i = 0; i < nParamsTot; i++) {
+    if (offsets[i] != 0.0) {
+      paramVect[i] -= offsets[i];
+      paramLimits[i].offset = offsets[i];
       if (paramLimits[i].limited[0] == 1)
-        paramLimits[i].limits[0] -= yOffset_ref;
+        paramLimits[i].limits[0] -= offsets[i];
       if (paramLimits[i].limited[1] == 1)
-        paramLimits[i].limits[1] -= yOffset_ref;
+        paramLimits[i].limits[1] -= offsets[i];
     }
   }
 }
-- 
2.43.0


From 70750a288a8afba2601d9ab2e184385abc7daa55 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 01:29:33 +0000
Subject: [PATCH 55/90] fix: parameter files for second and later images did
 not contain the parameters adjusted for that image

---
 core/model_object.cpp           | 21 +++++++++++++++++++++
 core/model_object.h             |  2 ++
 core/model_object_multimage.cpp |  5 ++++-
 3 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/core/model_object.cpp b/core/model_object.cpp
index f0020b0..8fd517e 100644
--- a/core/model_object.cpp
+++ b/core/model_object.cpp
@@ -1111,6 +1111,27 @@ void ModelObject::SetImageParameters( double imageDescriptionParams[] )
 }
 
 
+/* ---------------- PUBLIC METHOD: AdjustParametersForImage ------------ */
+/// Given a parameter vector, computes the function-parameter values appropriate for
+/// the current image-description parameters (see SetImageParameters); X0,Y0 values and
+/// parameters of per-image functions are simply copied.
+void ModelObject::AdjustParametersForImage( const double params[], double adjustedParams[] )
+{
+  int  indexOffset = 0;
+
+  for (int i = 0; i < nParamsTot; i++)
+    adjustedParams[i] = params[i];
+  for (int n = 0; n < nFunctions; n++) {
+    if (fsetStartFlags[n] == true)
+      indexOffset += 2;
+    if (globalFunctionFlags[n])
+      functionObjects[n]->AdjustParametersForImage(params, adjustedParams, indexOffset);
+    indexOffset += paramSizes[n];
+  }
+}
+
+
+
 /* ---------------- PUBLIC METHOD: CreateModelImage -------------------- */
 
 void ModelObject::CreateModelImage( double params[] )
diff --git a/core/model_object.h b/core/model_object.h
index 8a9d811..37cbed1 100644
--- a/core/model_object.h
+++ b/core/model_object.h
@@ -128,6 +128,8 @@ class ModelObject
 
     // [x] used in multimfit-related programs
     virtual void SetImageParameters( double imageDescriptionParams[] );
+
+    virtual void AdjustParametersForImage( const double params[], double adjustedParams[] );
     
     // common, but specialized by ModelObject1D
     virtual void CreateModelImage( double params[] );
diff --git a/core/model_object_multimage.cpp b/core/model_object_multimage.cpp
index 2dfb420..fbf6bbf 100644
--- a/core/model_object_multimage.cpp
+++ b/core/model_object_multimage.cpp
@@ -595,8 +595,11 @@ void ModelObjectMultImage::GetParameterStringsForOneImage( vector<string> &strin
   // Finally, tell ModelObject #imageNumber to print the (adjusted) function parameter
   // values to strings
   string prefix = "";
+  vector<double>  adjustedParams(nParamsForModelObjects[imageNumber] + 1);
+  modelObjectsVect[imageNumber]->AdjustParametersForImage(paramsForModelObjects[imageNumber],
+  										adjustedParams.data());
   modelObjectsVect[imageNumber]->PrintModelParamsToStrings(strings, 
-  										paramsForModelObjects[imageNumber], paramErrors, 
+  										adjustedParams.data(), paramErrors, 
   										"", false);
 }
 
-- 
2.43.0


From fe787b1374ec124e5d01b972b612754a639f5b73 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 01:29:33 +0000
Subject: [PATCH 56/90] fix: saved image-info files had X0,Y0 without
 image-section offsets and an invalid NCOMBINED

---
 core/print_results_multi.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/core/print_results_multi.cpp b/core/print_results_multi.cpp
index 2ca775f..ffd358d 100644
--- a/core/print_results_multi.cpp
+++ b/core/print_results_multi.cpp
@@ -127,6 +127,13 @@ void SaveImageInfoParameters( double *params, ModelObjectMultImage *multModel,
     // parameters in units of N_IMAGE_PARAMS; first set of params is for *second*
     // image (i = 1)
     int  offset = (i - 1)*N_IMAGE_PARAMS;
+    // correct X0,Y0 for image-section-based offsets
+    if (i > 0) {
+      int  offsetX0, offsetY0;
+      std::tie(offsetX0, offsetY0) = multModel->GetOffsetsForImage(i);
+      imageDescriptionParams[3 + offset] += offsetX0;
+      imageDescriptionParams[4 + offset] += offsetY0;
+    }
     PrintSingleImageInfoToStrings(imageInfoVect[i], stringsForFile, isReferenceImage,
     							imageDescriptionParams, offset, imageDescriptionParams_errs);
   }
@@ -168,7 +175,7 @@ void PrintSingleImageInfoToStrings( const ImageInfo& imInfo, vector<string>& str
   if (imInfo.readNoise != 0.0)
     strings.push_back(PrintToString("READNOISE\t\t%g\n", imInfo.readNoise));
   if (imInfo.nCombined != 1)
-    strings.push_back(PrintToString("NCOMBINED\t\t%g\n", imInfo.nCombined));
+    strings.push_back(PrintToString("NCOMBINED\t\t%d\n", imInfo.nCombined));
   // mask, error, and PSF images
   if (imInfo.maskImage_present)
     strings.push_back(PrintToString("MASK    %s\n", imInfo.maskImageFileName.c_str()));
-- 
2.43.0


From ba3e742611fc0aaae848a02b72ad5f6a11c870be Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 01:31:39 +0000
Subject: [PATCH 57/90] fix: multi-image programs read beyond the lists of
 per-image function sets and of global parameters

---
 core/makemultimages_main.cpp | 6 ++----
 core/multimfit_main.cpp      | 8 +++-----
 2 files changed, 5 insertions(+), 9 deletions(-)

diff --git a/core/makemultimages_main.cpp b/core/makemultimages_main.cpp
index 42e1eaa..a662369 100644
--- a/core/makemultimages_main.cpp
+++ b/core/makemultimages_main.cpp
@@ -273,13 +273,11 @@ int main( int argc, char *argv[] )
       for (int j = 0; j < nLocalFuncs; j++) {
         currentFunctionList.push_back(imageInfoVect[i].perImageFuncNames[j]);
         currentFunctionLabelList.push_back(imageInfoVect[i].perImageFuncLabels[j]);
-        printf("newFunctionSetIndex = nGlobalFuncs + imageInfoVect[i].perImageFuncSetIndices[j]");
-        printf("  %d + %d\n", nGlobalFuncs, imageInfoVect[i].perImageFuncSetIndices[j]);
-        int  newFunctionSetIndex = nGlobalFuncs + imageInfoVect[i].perImageFuncSetIndices[j];
-        currentFunctionSetIndices.push_back(newFunctionSetIndex);
         //FIXME: handle any extra, local-function optional-parameter-map values
         globalFuncFlags.push_back(false);
       }
+      for (auto localSetIndex : imageInfoVect[i].perImageFuncSetIndices)
+        currentFunctionSetIndices.push_back(nGlobalFuncs + localSetIndex);
     }
     printf("function list: ");
     for (int k = 0; k < (int)currentFunctionList.size(); k++)
diff --git a/core/multimfit_main.cpp b/core/multimfit_main.cpp
index 9800ff1..d22eefa 100644
--- a/core/multimfit_main.cpp
+++ b/core/multimfit_main.cpp
@@ -411,13 +411,11 @@ int main(int argc, char *argv[])
       for (int j = 0; j < nLocalFuncs; j++) {
         currentFunctionList.push_back(imageInfoVect[i].perImageFuncNames[j]);
         currentFunctionLabelList.push_back(imageInfoVect[i].perImageFuncLabels[j]);
-        printf("newFunctionSetIndex = nGlobalFuncs + imageInfoVect[i].perImageFuncSetIndices[j]");
-        printf("  %d + %d\n", nGlobalFuncs, imageInfoVect[i].perImageFuncSetIndices[j]);
-        int  newFunctionSetIndex = nGlobalFuncs + imageInfoVect[i].perImageFuncSetIndices[j];
-        currentFunctionSetIndices.push_back(newFunctionSetIndex);
         //FIXME: handle any extra, local-function optional-parameter-map values
         globalFuncFlags.push_back(false);
       }
+      for (auto localSetIndex : imageInfoVect[i].perImageFuncSetIndices)
+        currentFunctionSetIndices.push_back(nGlobalFuncs + localSetIndex);
     }
 #ifdef USE_LOGGING
     if (options->loggingOn) {
@@ -659,7 +657,7 @@ int main(int argc, char *argv[])
     paramsVect[i] = imageDescParamsVect[i];
   if (options->loggingOn)
     LOG_F(INFO, "Copying initial model parameter values into paramsVect...");
-  for (int i = nImageDescParams; i < nParamsTot; i++)
+  for (int i = nImageDescParams; i < nInputParams_nonLocal; i++)
     paramsVect[i] = parameterList[i - nImageDescParams];
   for (int i = nInputParams_nonLocal; i < nInputParamsTot; i++)
     paramsVect[i] = localParamsList[i - nInputParams_nonLocal];
-- 
2.43.0


From cab7004e705f7ed058c7095422eafc48c8ec6e8a Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 01:31:53 +0000
Subject: [PATCH 58/90] fix: makemultimages ignored problems with the
 image-info file and with saving images

---
 core/makemultimages_main.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/core/makemultimages_main.cpp b/core/makemultimages_main.cpp
index a662369..14071a9 100644
--- a/core/makemultimages_main.cpp
+++ b/core/makemultimages_main.cpp
@@ -173,6 +173,11 @@ int main( int argc, char *argv[] )
       return -1;
     }
     status = ReadImageParamsFile(options->imageInfoFile, nImages, imageInfoVect);
+    if (status < 0) {
+      fprintf(stderr, "\n*** ERROR: Problems parsing image-info file \"%s\"!\n\n", 
+             options->imageInfoFile.c_str());
+      return -1;
+    }
     std::tie(imageDescParamsVect, nImageDescParams) = GetImageDescriptionParams(imageInfoVect);
     printf("Image-description params from image-info file \"%s\": ", options->imageInfoFile.c_str());
     for (int i = 0; i < nImageDescParams; i++)
@@ -392,6 +397,11 @@ int main( int argc, char *argv[] )
     status = SaveVectorAsImage(theMultImageModel->GetModelImageVector(i), 
     							multImageOutputName, nColsThisImage, nRowsThisImage,
     							imageCommentsList);
+    if (status != 0) {
+      fprintf(stderr, "\n*** ERROR: Unable to save image file \"%s\"!\n\n", 
+             multImageOutputName.c_str());
+      exit(-1);
+    }
   }
 
   
-- 
2.43.0


From c39159a8d6e6e8021cfc77b9bb0c64f1dc5a4c71 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 01:43:30 +0000
Subject: [PATCH 59/90] fix: restarting imfit-mcmc read torn or foreign lines
 as states, misaligned chains, ignored image offsets, and appended to torn
 lines

---
 cdream/dream.cpp         |  15 +++-
 cdream/restore_state.cpp | 160 ++++++++++++++++++++++++++++++---------
 2 files changed, 138 insertions(+), 37 deletions(-)

diff --git a/cdream/dream.cpp b/cdream/dream.cpp
index 0dc7cc1..7c0bb6d 100644
--- a/cdream/dream.cpp
+++ b/cdream/dream.cpp
@@ -96,9 +96,22 @@ int dream( const dream_pars* p, rng::RngStream* rng )
 
   int prevLines = dream_restore_state(p, state, lik, pCR, inBurnIn);
   if (prevLines < 0) {
-    fprintf(stderr, "DREAM: previous MCMC output files not found!\n");
+    fprintf(stderr, "DREAM: previous MCMC output files not found or not usable!\n");
+    free(tempParams);
     return DREAM_EXIT_NO_OUTPUT_FILES;
   }
+  if (p->appendFile) {
+    // X0,Y0 values in output files include image offsets (due to use of image sections)
+    vector<double> paramOffsets(p->nvar, 0.0);
+    theModel->GetImageOffsets(paramOffsets.data());
+    for (int t = 0; t <= prevLines && t < p->maxEvals; ++t)
+      for (int i = 0; i < p->numChains; ++i)
+        for (int j = 0; j < p->nvar; ++j)
+          state(t,i,j) -= paramOffsets[j];
+    // the user may have asked for a longer burn-in phase than in the previous run
+    if (prevLines + 1 < p->burnIn)
+      inBurnIn = 1;
+  }
   // =========================================================================
   // open output file
 
diff --git a/cdream/restore_state.cpp b/cdream/restore_state.cpp
index f56e0b7..e05bf9a 100644
--- a/cdream/restore_state.cpp
+++ b/cdream/restore_state.cpp
@@ -3,55 +3,143 @@
 #include <sstream>
 #include <vector>
 #include <stdio.h>
+#include <unistd.h>   // for truncate
 
 using namespace std;
 
 #include "dream.h"
 #include "array.h"
 
+
+// State of one chain file: what its complete lines contain
+typedef struct {
+  string  filename;
+  int  nLines;                     // number of complete lines with states
+  vector<streamoff>  lineEnds;     // where (in the file) each of these lines ends
+  streamoff  completeEnd;          // where the last complete line of any kind ends
+  streamoff  fileEnd;
+  vector< vector<double> >  pCR;   // crossover probabilities for each line
+  vector<int>  burnInFlags;
+} chain_file;
+
+
+// Reads all complete lines (i.e., those ending in a newline) from one chain file. The last 
+// line of a file can be incomplete if a previous run was interrupted; it is not used.
+// Returns -1 if a complete line cannot be interpreted
+static int ReadChainFile( const dream_pars* p, int chain, ifstream& ifile, Array3D<double>& state, 
+						Array2D<double>& lik, chain_file& theFile )
+{
+  string input;
+  streamoff position = 0;
+
+  theFile.nLines = 0;
+  theFile.completeEnd = 0;
+  while (getline(ifile, input)) {
+    position += (streamoff)input.length();
+    if (ifile.eof())   // no newline at end of line: incomplete
+      break;
+    position += 1;
+    theFile.completeEnd = position;
+    if (input.length() == 0) 
+      continue;
+    if (input[0] == '#') 
+      continue;
+
+    istringstream istr(input);
+    double  value, likelihood;
+    int  burnInFlag, acceptFlag;
+    string  extraText;
+    vector<double>  lineParams, linePCR;
+    for (int j = 0; j < p->nvar; ++j) {
+      istr >> value;
+      lineParams.push_back(value);
+    }
+    istr >> likelihood >> burnInFlag;
+    for (int j = 0; j < p->nCR; ++j) {
+      istr >> value;
+      linePCR.push_back(value);
+    }
+    istr >> acceptFlag;
+    if (istr.fail() || (istr >> extraText)) {
+      fprintf(stderr, "   line %d of MCMC output file \"%s\" does not match the current model!\n", 
+      		theFile.nLines + 1, theFile.filename.c_str());
+      return -1;
+    }
+
+    if (theFile.nLines < p->maxEvals) {
+      for (int j = 0; j < p->nvar; ++j) 
+        state(theFile.nLines,chain,j) = lineParams[j];
+      lik(theFile.nLines,chain) = likelihood;
+    }
+    theFile.pCR.push_back(linePCR);
+    theFile.burnInFlags.push_back(burnInFlag);
+    theFile.lineEnds.push_back(position);
+    theFile.nLines += 1;
+  }
+  theFile.fileEnd = position;
+  return 0;
+}
+
+
+// Reads the states of previous runs from the chain files. If these runs were interrupted,
+// then some files can contain an incomplete line, or fewer generations than others; we 
+// continue from the last generation which is complete for all chains, and remove anything 
+// after that from the files.
+// Returns index of that generation, or -1 if the states cannot be used (or do not exist)
 int dream_restore_state( const dream_pars* p, Array3D<double>& state, Array2D<double>& lik,
     					vector<double>& pCR, int& inBurnIn )
 {
-  int prevLines = 0;
-  if (p->appendFile && (p->outputRootname != "" || p->outputRootname != "-")) {
+  int nLines = 0;
+  vector<chain_file>  chainFiles;
+
+  if (! p->appendFile)
+    return 0;
+  if (p->outputRootname == "" || p->outputRootname == "-")
+    return -1;
+
+  if (p->verboseLevel > 0)
+    printf("Restoring previous state... ");
+  for (int i = 0; i < p->numChains; ++i) {
     if (p->verboseLevel > 0)
-      printf("Restoring previous state... ");
-    prevLines = p->maxEvals;
-    for (int i = 0; i < p->numChains; ++i) {
-      if (p->verboseLevel > 0)
-        printf("%d ", i);
-      int line = 0;
-      ostringstream chainFilename("");
-      chainFilename << p->outputRootname << "." << i + 1 << ".txt";
-      ifstream ifile(chainFilename.str().c_str());
-      if (! ifile) {
-        prevLines = -1;
-        fprintf(stderr, "   pre-existing MCMC output file \"%s\" not found!", chainFilename.str().c_str());
-        break;
-      } else {
-        string input;
-        while (! getline(ifile, input).eof()) {
-          if (line >= p->maxEvals) 
-            break;
-          if (input.length() == 0) 
-            continue;
-          if (input[0] == '#') 
-            continue;
-          istringstream istr(input);
-          for (int j = 0; j < p->nvar; ++j) 
-            istr >> state(line,i,j); 
-          istr >> lik(line,i) >> inBurnIn;
-          for (int j(0); j < p->nCR; ++j) 
-            istr >> pCR[j];
-          ++line;
-        }
-        ifile.close();
-        if (prevLines > line) 
-          prevLines = line - 1;
+      printf("%d ", i);
+    chain_file  theFile;
+    ostringstream chainFilename("");
+    chainFilename << p->outputRootname << "." << i + 1 << ".txt";
+    theFile.filename = chainFilename.str();
+    ifstream ifile(theFile.filename.c_str());
+    if (! ifile) {
+      fprintf(stderr, "   pre-existing MCMC output file \"%s\" not found!\n", 
+      		theFile.filename.c_str());
+      return -1;
+    }
+    if (ReadChainFile(p, i, ifile, state, lik, theFile) < 0)
+      return -1;
+    if (theFile.nLines < 1) {
+      fprintf(stderr, "   no states found in pre-existing MCMC output file \"%s\"!\n", 
+      		theFile.filename.c_str());
+      return -1;
+    }
+    if (i == 0 || theFile.nLines < nLines)
+      nLines = theFile.nLines;
+    chainFiles.push_back(theFile);
+  }
+
+  for (int i = 0; i < p->numChains; ++i) {
+    streamoff  newEnd = chainFiles[i].completeEnd;
+    if (chainFiles[i].nLines > nLines)
+      newEnd = chainFiles[i].lineEnds[nLines - 1];
+    if (newEnd < chainFiles[i].fileEnd) {
+      if (truncate(chainFiles[i].filename.c_str(), (off_t)newEnd) != 0) {
+        fprintf(stderr, "   unable to remove incomplete output from MCMC output file \"%s\"!\n", 
+      			chainFiles[i].filename.c_str());
+        return -1;
       }
     }
   }
-  return prevLines;
+
+  inBurnIn = chainFiles[p->numChains - 1].burnInFlags[nLines - 1];
+  pCR = chainFiles[p->numChains - 1].pCR[nLines - 1];
+  return nLines - 1;
 }
 
 
-- 
2.43.0


From b4669ac6c3311823487c33e82b21abdc693d0985 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 01:43:30 +0000
Subject: [PATCH 60/90] fix: crossover probabilities became NaN if a crossover
 value had never been drawn

---
 cdream/dream.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdream/dream.cpp b/cdream/dream.cpp
index 7c0bb6d..6a6b39b 100644
--- a/cdream/dream.cpp
+++ b/cdream/dream.cpp
@@ -389,7 +389,7 @@ int dream( const dream_pars* p, rng::RngStream* rng )
         if (delta_sum > 0.0) {
           pCR_sum = 0.0;
           for (int m = 0; m < p->nCR; ++m) {
-            pCR[m] = (delta_tot[m]/delta_sum) / totalSteps[m];  // relative jump size per step
+            pCR[m] = (delta_tot[m]/delta_sum) / max(totalSteps[m], 1u);  // relative jump size per step
             pCR_sum += pCR[m];
           }
           for (int m = 0; m < p->nCR; ++m) {
-- 
2.43.0


From 5002cb7428d0503dfd4df9219cfbb0f9723911f8 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 01:43:30 +0000
Subject: [PATCH 61/90] fix: imfit-mcmc ignored chain files which cannot be
 opened or written, and returned success when MCMC processing failed; output
 to stdout deleted cout

---
 cdream/dream.cpp   | 30 +++++++++++++++++++++++++-----
 core/mcmc_main.cpp |  9 +++++++--
 2 files changed, 32 insertions(+), 7 deletions(-)

diff --git a/cdream/dream.cpp b/cdream/dream.cpp
index 6a6b39b..72f50b6 100644
--- a/cdream/dream.cpp
+++ b/cdream/dream.cpp
@@ -53,6 +53,17 @@ using namespace std;
 #include "utilities_pub.h"
 
 
+// Closes output files (but leaves standard output alone)
+static void CloseOutputStreams( vector<ostream*>& outputStreams )
+{
+  for (int i = 0; i < (int)outputStreams.size(); ++i) {
+    if (outputStreams[i] != nullptr && outputStreams[i] != &cout) 
+      delete outputStreams[i];
+    outputStreams[i] = nullptr;
+  }
+}
+
+
 int dream( const dream_pars* p, rng::RngStream* rng )
 {
   int inBurnIn = (p->burnIn > 0);
@@ -126,6 +137,12 @@ int dream( const dream_pars* p, rng::RngStream* rng )
       chainFilename.str("");
       chainFilename << p->outputRootname << "." << i + 1 << ".txt";
       oout[i] = new ofstream(chainFilename.str().c_str(), fmode);
+      if (oout[i]->fail()) {
+        fprintf(stderr, "DREAM: unable to open output file \"%s\"!\n", chainFilename.str().c_str());
+        CloseOutputStreams(oout);
+        free(tempParams);
+        return DREAM_EXIT_ERROR;
+      }
       oout[i]->setf(ios::scientific, ios::floatfield);
       oout[i]->precision(12);
       for (int n = 0; n < p->outputHeaderLines.size(); n++)
@@ -480,17 +497,20 @@ int dream( const dream_pars* p, rng::RngStream* rng )
         for (int j(0); j < p->nCR; ++j) 
           *oout[i] << pCR[j] << " ";
         *oout[i] << acceptStep[i] << endl;
+        if (oout[i]->fail()) {
+          fprintf(stderr, "DREAM: unable to write to output file for chain %d!\n", i + 1);
+          CloseOutputStreams(oout);
+          free(tempParams);
+          return DREAM_EXIT_ERROR;
+        }
       }
     }
   }  // end of loop(i) over generations
   
   
 
-  for (int i(0); i < p->numChains; ++i) {
-    // close output files
-    if (oout[i] != nullptr) 
-      delete oout[i];
-  }
+  // close output files
+  CloseOutputStreams(oout);
 
   // PE: memory cleanup of added stuff
   free(tempParams);
diff --git a/core/mcmc_main.cpp b/core/mcmc_main.cpp
index bc9aa02..7aed77a 100644
--- a/core/mcmc_main.cpp
+++ b/core/mcmc_main.cpp
@@ -443,8 +443,11 @@ int main(int argc, char *argv[])
 
   // OK, now we execute the MCMC process
   printf("\nStart of MCMC processing...\n");
-  dream(&dreamPars, &rng);
-  printf("\nMCMC chains written to output files %s.1.txt through %s.%d.txt", 
+  int  dreamStatus = dream(&dreamPars, &rng);
+  if (dreamStatus < 0)
+    fprintf(stderr, "\n*** ERROR: MCMC processing failed!\n");
+  else
+    printf("\nMCMC chains written to output files %s.1.txt through %s.%d.txt", 
   		options->outputFileRoot.c_str(), options->outputFileRoot.c_str(), options->nChains);
 
 
@@ -476,6 +479,8 @@ int main(int argc, char *argv[])
     printf("\n(Elapsed time: %.6f sec)\n", time_elapsed_all);
   }
   
+  if (dreamStatus < 0)
+    return -1;
   printf("\nDone!\n\n");
   
   return 0;
-- 
2.43.0


From 2772d5c45316c1eaf7fa410bc8be9b8b1969f685 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 01:43:30 +0000
Subject: [PATCH 62/90] fix: imfit-mcmc aborted for a single chain (also the
 default for one free parameter) and overran its arrays for a maximum length
 of 0

---
 cdream/dream.cpp   |  9 +++++++++
 core/mcmc_main.cpp | 10 ++++++++--
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/cdream/dream.cpp b/cdream/dream.cpp
index 72f50b6..d066b0d 100644
--- a/cdream/dream.cpp
+++ b/cdream/dream.cpp
@@ -74,6 +74,15 @@ int dream( const dream_pars* p, rng::RngStream* rng )
   
   ModelObject * theModel = (ModelObject *)p->extraData;
 
+  if (p->numChains < 2) {
+    fprintf(stderr, "DREAM: at least two chains are required!\n");
+    return DREAM_EXIT_ERROR;
+  }
+  if (p->maxEvals < 1) {
+    fprintf(stderr, "DREAM: maximum number of generations must be at least 1!\n");
+    return DREAM_EXIT_ERROR;
+  }
+
   // opening message
   if (p->verboseLevel > 0) {
     printf("Beginning DREAM:\n");
diff --git a/core/mcmc_main.cpp b/core/mcmc_main.cpp
index 7aed77a..9eebbf5 100644
--- a/core/mcmc_main.cpp
+++ b/core/mcmc_main.cpp
@@ -392,8 +392,14 @@ int main(int argc, char *argv[])
 
   // Default is nChains = N_free_params (dimensionality of parameter space)
   if (options->nChains <= 0) {
-    printf("Setting nChains = %d (nFreeParams)\n", nFreeParams);
-    options->nChains = nFreeParams;
+    if (nFreeParams >= 2) {
+      printf("Setting nChains = %d (nFreeParams)\n", nFreeParams);
+      options->nChains = nFreeParams;
+    }
+    else {
+      printf("Setting nChains = 2 (minimum for DREAM)\n");
+      options->nChains = 2;
+    }
   }
 
   dream_pars dreamPars;
-- 
2.43.0


From 4328439ae615bf66aa0c5ce95f42a4187061af0c Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 01:43:30 +0000
Subject: [PATCH 63/90] fix: imfit-mcmc never ended if no initial state has a
 finite likelihood

---
 cdream/dream.cpp            |  6 +++++-
 cdream/dream.h              |  2 +-
 cdream/dream_initialize.cpp | 11 ++++++++++-
 3 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/cdream/dream.cpp b/cdream/dream.cpp
index d066b0d..2edba0a 100644
--- a/cdream/dream.cpp
+++ b/cdream/dream.cpp
@@ -169,7 +169,11 @@ int dream( const dream_pars* p, rng::RngStream* rng )
   if (! p->appendFile) {
     Array2DView<double> initVar(state.n_y(), state.n_z(), state.pt(0,0,0));
     ArrayView<double> initLik(lik.n_y(), lik.pt(0,0));
-    dream_initialize(p, rng, initVar, initLik);
+    if (dream_initialize(p, rng, initVar, initLik) < 0) {
+      CloseOutputStreams(oout);
+      free(tempParams);
+      return DREAM_EXIT_ERROR;
+    }
 
     // save initial state of each chain
     for (int i = 0; i < p->numChains; ++i) {
diff --git a/cdream/dream.h b/cdream/dream.h
index e1ceabb..f6b0128 100644
--- a/cdream/dream.h
+++ b/cdream/dream.h
@@ -28,7 +28,7 @@ const int  DREAM_EXIT_MAX_ITERATIONS = 1;
 int dream_restore_state( const dream_pars* p, Array3D<double>& state, 
 						Array2D<double>& lik, vector<double>& pCR, int& inBurnIn );
 
-void dream_initialize( const dream_pars* p, rng::RngStream* rng, 
+int dream_initialize( const dream_pars* p, rng::RngStream* rng, 
 						Array2DView<double>& state, ArrayView<double>& lik );
 
 int dream( const dream_pars* p, rng::RngStream* rng );
diff --git a/cdream/dream_initialize.cpp b/cdream/dream_initialize.cpp
index 4073be0..beaf7f2 100644
--- a/cdream/dream_initialize.cpp
+++ b/cdream/dream_initialize.cpp
@@ -6,7 +6,10 @@ using namespace std;
 
 #include "dream.h"
 
-void dream_initialize( const dream_pars* p, rng::RngStream* rng, 
+// Maximum number of attempts to find an initial state with finite likelihood
+const int  MAX_INIT_TRIES = 10000;
+
+int dream_initialize( const dream_pars* p, rng::RngStream* rng, 
 						Array2DView<double>& state, ArrayView<double>& lik) 
 {
   if (p->verboseLevel > 0)
@@ -73,7 +76,12 @@ void dream_initialize( const dream_pars* p, rng::RngStream* rng,
 
   // replace chains with infinite likelihood with random samples
   for (int i = 0; i < p->numChains; ++i) {
+    int nTries = 0;
     while (lik[i] == -INFINITY || lik[i] != lik[i]) { // TODO: ?????
+      if (++nTries > MAX_INIT_TRIES) {
+        fprintf(stderr, "DREAM: no parameter values with finite likelihood found for chain %d!\n", i + 1);
+        return DREAM_EXIT_ERROR;
+      }
       printf("Likelihood of chain = INF. Resampling intial parameters...\n");
       // choose random parameters
       for (int j = 0; j < p->nvar; ++j) {
@@ -94,6 +102,7 @@ void dream_initialize( const dream_pars* p, rng::RngStream* rng,
       printf("New likelihood = %f\n", lik[i]);
     }
   }
+  return 0;
 }
 
 
-- 
2.43.0


From c81d72f66eddb421d9fff2c2ad4447eccda2189a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:09 +0000
Subject: [PATCH 64/90] fix: imfit-mcmc accepted shifted columns when
 restarting

---
 cdream/restore_state.cpp | 38 +++++++++++++++++++++-----------------
 1 file changed, 21 insertions(+), 17 deletions(-)

diff --git a/cdream/restore_state.cpp b/cdream/restore_state.cpp
index e05bf9a..dce60ad 100644
--- a/cdream/restore_state.cpp
+++ b/cdream/restore_state.cpp
@@ -3,6 +3,7 @@
 #include <sstream>
 #include <vector>
 #include <stdio.h>
+#include <stdlib.h>
 #include <unistd.h>   // for truncate
 
 using namespace std;
@@ -45,22 +46,25 @@ static int ReadChainFile( const dream_pars* p, int chain, ifstream& ifile, Array
     if (input[0] == '#') 
       continue;
 
+    // parameter values, likelihood, burn-in flag, crossover probabilities, acceptance flag
     istringstream istr(input);
-    double  value, likelihood;
-    int  burnInFlag, acceptFlag;
-    string  extraText;
-    vector<double>  lineParams, linePCR;
-    for (int j = 0; j < p->nvar; ++j) {
-      istr >> value;
-      lineParams.push_back(value);
+    string  column;
+    vector<double>  values;
+    bool  lineOK = true;
+    while (istr >> column) {
+      char  *endPtr;
+      values.push_back(strtod(column.c_str(), &endPtr));
+      if (*endPtr != '\0')
+        lineOK = false;
     }
-    istr >> likelihood >> burnInFlag;
-    for (int j = 0; j < p->nCR; ++j) {
-      istr >> value;
-      linePCR.push_back(value);
+    if (lineOK && (int)values.size() == p->nvar + p->nCR + 3) {
+      double  burnInFlag = values[p->nvar + 1];
+      double  acceptFlag = values[p->nvar + p->nCR + 2];
+      lineOK = (burnInFlag == 0 || burnInFlag == 1) && (acceptFlag == 0 || acceptFlag == 1);
     }
-    istr >> acceptFlag;
-    if (istr.fail() || (istr >> extraText)) {
+    else
+      lineOK = false;
+    if (! lineOK) {
       fprintf(stderr, "   line %d of MCMC output file \"%s\" does not match the current model!\n", 
       		theFile.nLines + 1, theFile.filename.c_str());
       return -1;
@@ -68,11 +72,11 @@ static int ReadChainFile( const dream_pars* p, int chain, ifstream& ifile, Array
 
     if (theFile.nLines < p->maxEvals) {
       for (int j = 0; j < p->nvar; ++j) 
-        state(theFile.nLines,chain,j) = lineParams[j];
-      lik(theFile.nLines,chain) = likelihood;
+        state(theFile.nLines,chain,j) = values[j];
+      lik(theFile.nLines,chain) = values[p->nvar];
     }
-    theFile.pCR.push_back(linePCR);
-    theFile.burnInFlags.push_back(burnInFlag);
+    theFile.pCR.push_back(vector<double>(values.begin() + p->nvar + 2, values.end() - 1));
+    theFile.burnInFlags.push_back((int)values[p->nvar + 1]);
     theFile.lineEnds.push_back(position);
     theFile.nLines += 1;
   }
-- 
2.43.0


From c78805e6a82fe848acfa818915dd3290e80f10f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:52 +0000
Subject: [PATCH 65/90] fix: imfit crashed when the bootstrap-output file could
 not be opened

---
 core/imfit_main.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/core/imfit_main.cpp b/core/imfit_main.cpp
index 6acb997..2567228 100644
--- a/core/imfit_main.cpp
+++ b/core/imfit_main.cpp
@@ -399,6 +399,13 @@ int main(int argc, char *argv[])
   if ((options->doBootstrap) && (options->bootstrapIterations > 0) && (! userInterrupted)) {
     if (options->saveBootstrap) {
       bootstrapSaveFile_ptr = fopen(options->outputBootstrapFileName.c_str(), "w");
+      if (bootstrapSaveFile_ptr == nullptr) {
+        fprintf(stderr, "\n*** WARNING: Unable to open file \"%s\" -- bootstrap output will not be saved!\n\n",
+        		options->outputBootstrapFileName.c_str());
+        options->saveBootstrap = false;
+      }
+    }
+    if (options->saveBootstrap) {
       // write general info + best-fitting params as a commented-out header
       SaveParameters2(bootstrapSaveFile_ptr, paramsVect, theModel, programHeader, "#");
     }
-- 
2.43.0


From 5305dd67dfdfaba817a40bd6739dd81397601161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:13 +0000
Subject: [PATCH 66/90] fix: imfit reported success when DE could not run
 without parameter limits

---
 core/imfit_main.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/core/imfit_main.cpp b/core/imfit_main.cpp
index 2567228..81a9e32 100644
--- a/core/imfit_main.cpp
+++ b/core/imfit_main.cpp
@@ -304,6 +304,19 @@ int main(int argc, char *argv[])
     }
   }
   
+  // Check to see that all parameters have limits (or are fixed), if user requested
+  // fitting with Differential Evolution
+  if ((options->solver == DIFF_EVOLN_SOLVER) && (! options->printFitStatisticOnly)) {
+    for (int i = 0; i < nParamsTot; i++) {
+      if ( (parameterInfo[i].fixed == 0) && 
+      		((parameterInfo[i].limited[0] == 0) || (parameterInfo[i].limited[1] == 0)) ) {
+        fprintf(stderr, "*** ERROR: Missing one or more limits for model parameter values in config file!\n");
+        fprintf(stderr, "    (For the DE solver, all model parameters must be fixed or have lower & upper limits)\n\n");
+        exit(-2);
+      }
+    }
+  }
+
   // tell ModelObject about parameterInfo (mainly useful for printing-related methods)
   theModel->AddParameterInfo(parameterInfo);
   theModel->AddImageOffsets(X0_offset, Y0_offset);
-- 
2.43.0


From 98ce910e081aa9d8ad3b4ffc61ea7aaa14ad0c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:13 +0000
Subject: [PATCH 67/90] fix: oversampled-PSF records were freed without running
 their destructors

---
 core/imfit_main.cpp     | 2 +-
 core/makeimage_main.cpp | 2 +-
 core/mcmc_main.cpp      | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/imfit_main.cpp b/core/imfit_main.cpp
index 81a9e32..b8ef23f 100644
--- a/core/imfit_main.cpp
+++ b/core/imfit_main.cpp
@@ -508,7 +508,7 @@ int main(int argc, char *argv[])
     fftw_free(allMaskPixels);           // allocated externally, in ReadImageAsVector()
   if (psfOversamplingInfoVect.size() > 0) {
     for (int nn = 0; nn < (int)psfOversamplingInfoVect.size(); nn++)
-      free(psfOversamplingInfoVect[nn]);
+      delete psfOversamplingInfoVect[nn];
     psfOversamplingInfoVect.clear();
   }
   free(paramsVect);
diff --git a/core/makeimage_main.cpp b/core/makeimage_main.cpp
index 3299346..23c474d 100644
--- a/core/makeimage_main.cpp
+++ b/core/makeimage_main.cpp
@@ -379,7 +379,7 @@ int main( int argc, char *argv[] )
     fftw_free(psfPixels);       // allocated in ReadImageAsVector()
   if (psfOversamplingInfoVect.size() > 0) {
     for (int nn = 0; nn < (int)psfOversamplingInfoVect.size(); nn++)
-      free(psfOversamplingInfoVect[nn]);
+      delete psfOversamplingInfoVect[nn];
     psfOversamplingInfoVect.clear();
   }
   free(paramsVect);
diff --git a/core/mcmc_main.cpp b/core/mcmc_main.cpp
index 9eebbf5..df59de6 100644
--- a/core/mcmc_main.cpp
+++ b/core/mcmc_main.cpp
@@ -467,7 +467,7 @@ int main(int argc, char *argv[])
     fftw_free(allMaskPixels);           // allocated externally, in ReadImageAsVector()
   if (psfOversamplingInfoVect.size() > 0) {
     for (int nn = 0; nn < (int)psfOversamplingInfoVect.size(); nn++)
-      free(psfOversamplingInfoVect[nn]);
+      delete psfOversamplingInfoVect[nn];
     psfOversamplingInfoVect.clear();
   }
   free(paramsVect);
-- 
2.43.0


From de5095ad7d4c85963215507b7974185d8cf0ac28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:13 +0000
Subject: [PATCH 68/90] fix: makeimage crashed when the fluxes file could not
 be opened

---
 core/makeimage_main.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/core/makeimage_main.cpp b/core/makeimage_main.cpp
index 23c474d..75e6e38 100644
--- a/core/makeimage_main.cpp
+++ b/core/makeimage_main.cpp
@@ -805,6 +805,12 @@ void DetermineFluxes( ModelObject *theModel, double *parameters,
     headerLines.push_back(columHeaderLine_for_file);
 
     FILE * file_ptr = fopen(options->saveFluxesFileName.c_str(), "w");
+    if (file_ptr == nullptr) {
+      fprintf(stderr, "\n*** WARNING: Unable to open file \"%s\" for saving fluxes!\n\n",
+      			options->saveFluxesFileName.c_str());
+      free(fluxes);
+      return;
+    }
     for (n = 0; n < (int)headerLines.size(); n++)
       fprintf(file_ptr, "%s", headerLines[n].c_str());
     for (n = 0; n < (int)saveFluxesLines.size(); n++)
-- 
2.43.0


From db2e4afba7780a6c8a8481f5a3f0a624de842a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:14 +0000
Subject: [PATCH 69/90] fix: makeimage used uninitialised PSF sizes and aborted
 without an image size

---
 core/makeimage_main.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/core/makeimage_main.cpp b/core/makeimage_main.cpp
index 75e6e38..c4677b8 100644
--- a/core/makeimage_main.cpp
+++ b/core/makeimage_main.cpp
@@ -98,7 +98,8 @@ void DetermineFluxes( ModelObject *theModel, double *parameters,
 int main( int argc, char *argv[] )
 {
   int  nColumns, nRows;
-  int  nColumns_psf, nRows_psf;
+  int  nColumns_psf = 0;
+  int  nRows_psf = 0;
   int  nParamsTot;
   int  status;
   double  *psfPixels = nullptr;
@@ -186,6 +187,7 @@ int main( int argc, char *argv[] )
       // (except for --print-fluxes purposes)
       options->nColumns = 2;
       options->nRows = 2;
+      options->noImageDimensions = false;
     }
   }
   // Get image size from reference image, if necessary
@@ -203,6 +205,11 @@ int main( int argc, char *argv[] )
            nRows, nColumns);
   }
   else {
+    if (options->noImageDimensions) {
+      // we're only computing fluxes, so size of reference image isn't needed
+      options->nColumns = 2;
+      options->nRows = 2;
+    }
     nColumns = options->nColumns;
     nRows = options->nRows;
   }
-- 
2.43.0


From 8390f72bee3f7f0ec4b3f457ed45287b19362707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:14 +0000
Subject: [PATCH 70/90] fix: imfit-mcmc refused --cashstat (claimed L-M solver
 in use)

---
 core/definitions.h  | 1 +
 core/options_mcmc.h | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/core/definitions.h b/core/definitions.h
index 5aace98..9e2e05d 100644
--- a/core/definitions.h
+++ b/core/definitions.h
@@ -64,6 +64,7 @@ const double DEFAULT_FTOL = 1.0e-8;
 
 /* SOLVER OPTIONS: */
 const int NO_FITTING           =     0;
+const int NO_SOLVER            =     0;
 const int MPFIT_SOLVER         =     1;
 const int DIFF_EVOLN_SOLVER    =     2;
 const int NMSIMPLEX_SOLVER     =     3;
diff --git a/core/options_mcmc.h b/core/options_mcmc.h
index bfda539..0b08959 100644
--- a/core/options_mcmc.h
+++ b/core/options_mcmc.h
@@ -61,6 +61,8 @@ class MCMCOptions : public OptionsBase
       originalSkySet = false;
       originalSky = 0.0;
 
+      solver = NO_SOLVER;   // we do MCMC, not minimization
+
       useModelForErrors = false;
       useCashStatistic = false;
       usePoissonMLR = false;
-- 
2.43.0


From e6dd9f725c948d6b69768542d08a9bd3136d54e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:14 +0000
Subject: [PATCH 71/90] fix: multimfit crashed when output files could not be
 opened

---
 core/multimfit_main.cpp      |  5 +++++
 core/print_results_multi.cpp | 20 ++++++++++++++------
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/core/multimfit_main.cpp b/core/multimfit_main.cpp
index d22eefa..80fa1b6 100644
--- a/core/multimfit_main.cpp
+++ b/core/multimfit_main.cpp
@@ -750,6 +750,11 @@ int main(int argc, char *argv[])
   if ((options->doBootstrap) && (options->bootstrapIterations > 0) && (! userInterrupted)) {
     if (options->saveBootstrap) {
       bootstrapSaveFile_ptr = fopen(options->outputBootstrapFileName.c_str(), "w");
+      if (bootstrapSaveFile_ptr == nullptr) {
+        fprintf(stderr, "\n*** WARNING: Unable to open file \"%s\" -- bootstrap output will not be saved!\n\n",
+        		options->outputBootstrapFileName.c_str());
+        options->saveBootstrap = false;
+      }
       // write general info + best-fitting params as a commented-out header
       // SaveParameters2(bootstrapSaveFile_ptr, paramsVect, theModel, programHeader, "#");
     }
diff --git a/core/print_results_multi.cpp b/core/print_results_multi.cpp
index ffd358d..003a7e1 100644
--- a/core/print_results_multi.cpp
+++ b/core/print_results_multi.cpp
@@ -69,6 +69,10 @@ void SaveMultImageParameters( double *params, ModelObjectMultImage *multModel,
       printf("\tSaving %s...\n", newFilename.c_str());
     }
     file_ptr = fopen(newFilename.c_str(), "w");
+    if (file_ptr == nullptr) {
+      fprintf(stderr, FILE_OPEN_ERR_STRING, newFilename.c_str());
+      return;
+    }
     for (auto line: outputHeader)
       fprintf(file_ptr, "%s\n", line.c_str());
     dataFilename = multModel->GetDataFilename(i);
@@ -140,12 +144,16 @@ void SaveImageInfoParameters( double *params, ModelObjectMultImage *multModel,
   
   if (stringsForFile.size() > 0) {
     file_ptr = fopen(outputFilename.c_str(), "w");
-    for (auto line: outputHeader)
-      fprintf(file_ptr, "%s\n", line.c_str());
-    fprintf(file_ptr, "\n# IMAGE PARAMETERS\n\n");
-    for (auto line: stringsForFile)
-      fprintf(file_ptr, "%s", line.c_str());
-    fclose(file_ptr);
+    if (file_ptr != nullptr) {
+      for (auto line: outputHeader)
+        fprintf(file_ptr, "%s\n", line.c_str());
+      fprintf(file_ptr, "\n# IMAGE PARAMETERS\n\n");
+      for (auto line: stringsForFile)
+        fprintf(file_ptr, "%s", line.c_str());
+      fclose(file_ptr);
+    }
+    else
+      fprintf(stderr, FILE_OPEN_ERR_STRING, outputFilename.c_str());
   }
   
   free(imageDescriptionParams);
-- 
2.43.0


From 6cde64e9ee3f3da70d75c057a0ba3cf6534e2df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:14 +0000
Subject: [PATCH 72/90] fix: a negative sky level given by the user aborted the
 program

---
 core/model_object.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/core/model_object.cpp b/core/model_object.cpp
index 8fd517e..9fdbdb9 100644
--- a/core/model_object.cpp
+++ b/core/model_object.cpp
@@ -538,7 +538,6 @@ void ModelObject::AddImageCharacteristics( double imageGain, double readoutNoise
 {
   assert( (imageGain > 0.0) && (readoutNoise >= 0.0) );
   assert( (expTime > 0.0) && (nCombinedImages >= 1) );
-  assert( (originalSkyBackground >= 0.0) );
 
   gain = imageGain;
   readNoise = readoutNoise;
-- 
2.43.0


From 4c964ec7baa0fbf9c64d0c6c5f2f6f3b7e77c669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:14 +0000
Subject: [PATCH 73/90] fix: invalid image characteristics in config file
 aborted the program

---
 core/imfit_main.cpp | 30 ++++++++++++++++++++++++++++--
 core/mcmc_main.cpp  | 30 ++++++++++++++++++++++++++++--
 2 files changed, 56 insertions(+), 4 deletions(-)

diff --git a/core/imfit_main.cpp b/core/imfit_main.cpp
index b8ef23f..932270e 100644
--- a/core/imfit_main.cpp
+++ b/core/imfit_main.cpp
@@ -878,7 +878,8 @@ void ProcessInput( int argc, char *argv[], shared_ptr<ImfitOptions> theOptions )
     printf("\toriginal sky level = %g ADU\n", theOptions->originalSky);
   }
   if (optParser->OptionSet("gain")) {
-    if (NotANumber(optParser->GetTargetString("gain").c_str(), 0, kPosReal)) {
+    if (NotANumber(optParser->GetTargetString("gain").c_str(), 0, kPosReal) ||
+        (strtod(optParser->GetTargetString("gain").c_str(), nullptr) <= 0.0)) {
       fprintf(stderr, "*** ERROR: gain should be a positive real number!\n");
       delete optParser;
       exit(1);
@@ -898,7 +899,8 @@ void ProcessInput( int argc, char *argv[], shared_ptr<ImfitOptions> theOptions )
     printf("\tread noise = %g e-\n", theOptions->readNoise);
   }
   if (optParser->OptionSet("exptime")) {
-    if (NotANumber(optParser->GetTargetString("exptime").c_str(), 0, kPosReal)) {
+    if (NotANumber(optParser->GetTargetString("exptime").c_str(), 0, kPosReal) ||
+        (strtod(optParser->GetTargetString("exptime").c_str(), nullptr) <= 0.0)) {
       fprintf(stderr, "*** ERROR: exptime should be a positive real number!\n");
       delete optParser;
       exit(1);
@@ -1011,6 +1013,20 @@ bool RequestedFilesPresent( shared_ptr<ImfitOptions> theOptions )
 
 
 
+// Checks that the value of a config-file option is a number of the required kind (same
+// rules as for the corresponding command-line options); exits the program if it is not.
+static void CheckConfigFileValue( const string &value, int restriction, bool mustBeNonzero,
+								const string &errorMessage )
+{
+  if ( NotANumber(value.c_str(), 0, restriction) || 
+  		(mustBeNonzero && (strtod(value.c_str(), nullptr) <= 0.0)) ) {
+    fprintf(stderr, "*** ERROR: %s (value in config file = \"%s\")!\n", errorMessage.c_str(),
+    		value.c_str());
+    exit(1);
+  }
+}
+
+
 // Note that we only use options from the config file if they have *not*
 // already been set by the command line (i.e., command-line options override
 // config-file values).
@@ -1029,6 +1045,8 @@ void HandleConfigFileOptions( configOptions *configFileOptions,
       if (mainOptions->gainSet) {
         printf("Gain value in config file ignored (using command-line value)\n");
       } else {
+        CheckConfigFileValue(configFileOptions->optionValues[i], kPosReal, true,
+        					"GAIN should be a positive real number");
         newDblVal = strtod(configFileOptions->optionValues[i].c_str(), nullptr);
         printf("Value from config file: gain = %f e-/ADU\n", newDblVal);
         mainOptions->gain = newDblVal;
@@ -1039,6 +1057,8 @@ void HandleConfigFileOptions( configOptions *configFileOptions,
       if (mainOptions->readNoiseSet) {
         printf("Read-noise value in config file ignored (using command-line value)\n");
       } else {
+        CheckConfigFileValue(configFileOptions->optionValues[i], kPosReal, false,
+        					"READNOISE should be a non-negative real number");
         newDblVal = strtod(configFileOptions->optionValues[i].c_str(), nullptr);
         printf("Value from config file: read noise = %f e-\n", newDblVal);
         mainOptions->readNoise = newDblVal;
@@ -1049,6 +1069,8 @@ void HandleConfigFileOptions( configOptions *configFileOptions,
       if (mainOptions->expTimeSet) {
         printf("Read-noise value in config file ignored (using command-line value)\n");
       } else {
+        CheckConfigFileValue(configFileOptions->optionValues[i], kPosReal, true,
+        					"EXPTIME should be a positive real number");
         newDblVal = strtod(configFileOptions->optionValues[i].c_str(), nullptr);
         printf("Value from config file: exposure time = %f sec\n", newDblVal);
         mainOptions->expTime = newDblVal;
@@ -1059,6 +1081,8 @@ void HandleConfigFileOptions( configOptions *configFileOptions,
       if (mainOptions->originalSkySet) {
         printf("Original-sky value in config file ignored (using command-line value)\n");
       } else {
+        CheckConfigFileValue(configFileOptions->optionValues[i], kAnyReal, false,
+        					"ORIGINAL_SKY should be a real number");
         newDblVal = strtod(configFileOptions->optionValues[i].c_str(), nullptr);
         printf("Value from config file: original sky = %f\n", newDblVal);
         mainOptions->originalSky = newDblVal;
@@ -1069,6 +1093,8 @@ void HandleConfigFileOptions( configOptions *configFileOptions,
       if (mainOptions->nCombinedSet) {
         printf("nCombined value in config file ignored (using command-line value)\n");
       } else {
+        CheckConfigFileValue(configFileOptions->optionValues[i], kPosInt, false,
+        					"NCOMBINED should be a positive integer");
         newIntVal = atoi(configFileOptions->optionValues[i].c_str());
         printf("Value from config file: nCombined = %d\n", newIntVal);
         mainOptions->nCombined = newIntVal;
diff --git a/core/mcmc_main.cpp b/core/mcmc_main.cpp
index df59de6..126971d 100644
--- a/core/mcmc_main.cpp
+++ b/core/mcmc_main.cpp
@@ -754,7 +754,8 @@ void ProcessInput( int argc, char *argv[], shared_ptr<MCMCOptions> theOptions )
     printf("\toriginal sky level = %g ADU\n", theOptions->originalSky);
   }
   if (optParser->OptionSet("gain")) {
-    if (NotANumber(optParser->GetTargetString("gain").c_str(), 0, kPosReal)) {
+    if (NotANumber(optParser->GetTargetString("gain").c_str(), 0, kPosReal) ||
+        (strtod(optParser->GetTargetString("gain").c_str(), nullptr) <= 0.0)) {
       fprintf(stderr, "*** ERROR: gain should be a positive real number!\n");
       delete optParser;
       exit(1);
@@ -774,7 +775,8 @@ void ProcessInput( int argc, char *argv[], shared_ptr<MCMCOptions> theOptions )
     printf("\tread noise = %g e-\n", theOptions->readNoise);
   }
   if (optParser->OptionSet("exptime")) {
-    if (NotANumber(optParser->GetTargetString("exptime").c_str(), 0, kPosReal)) {
+    if (NotANumber(optParser->GetTargetString("exptime").c_str(), 0, kPosReal) ||
+        (strtod(optParser->GetTargetString("exptime").c_str(), nullptr) <= 0.0)) {
       fprintf(stderr, "*** ERROR: exptime should be a positive real number!\n");
       delete optParser;
       exit(1);
@@ -932,6 +934,20 @@ bool RequestedFilesPresent( shared_ptr<MCMCOptions> theOptions )
 
 
 
+// Checks that the value of a config-file option is a number of the required kind (same
+// rules as for the corresponding command-line options); exits the program if it is not.
+static void CheckConfigFileValue( const string &value, int restriction, bool mustBeNonzero,
+								const string &errorMessage )
+{
+  if ( NotANumber(value.c_str(), 0, restriction) || 
+  		(mustBeNonzero && (strtod(value.c_str(), nullptr) <= 0.0)) ) {
+    fprintf(stderr, "*** ERROR: %s (value in config file = \"%s\")!\n", errorMessage.c_str(),
+    		value.c_str());
+    exit(1);
+  }
+}
+
+
 // Note that we only use options from the config file if they have *not*
 // already been set by the command line (i.e., command-line options override
 // config-file values).
@@ -950,6 +966,8 @@ void HandleConfigFileOptions( configOptions *configFileOptions,
       if (mainOptions->gainSet) {
         printf("Gain value in config file ignored (using command-line value)\n");
       } else {
+        CheckConfigFileValue(configFileOptions->optionValues[i], kPosReal, true,
+        					"GAIN should be a positive real number");
         newDblVal = strtod(configFileOptions->optionValues[i].c_str(), nullptr);
         printf("Value from config file: gain = %f e-/ADU\n", newDblVal);
         mainOptions->gain = newDblVal;
@@ -960,6 +978,8 @@ void HandleConfigFileOptions( configOptions *configFileOptions,
       if (mainOptions->readNoiseSet) {
         printf("Read-noise value in config file ignored (using command-line value)\n");
       } else {
+        CheckConfigFileValue(configFileOptions->optionValues[i], kPosReal, false,
+        					"READNOISE should be a non-negative real number");
         newDblVal = strtod(configFileOptions->optionValues[i].c_str(), nullptr);
         printf("Value from config file: read noise = %f e-\n", newDblVal);
         mainOptions->readNoise = newDblVal;
@@ -970,6 +990,8 @@ void HandleConfigFileOptions( configOptions *configFileOptions,
       if (mainOptions->expTimeSet) {
         printf("Read-noise value in config file ignored (using command-line value)\n");
       } else {
+        CheckConfigFileValue(configFileOptions->optionValues[i], kPosReal, true,
+        					"EXPTIME should be a positive real number");
         newDblVal = strtod(configFileOptions->optionValues[i].c_str(), nullptr);
         printf("Value from config file: exposure time = %f sec\n", newDblVal);
         mainOptions->expTime = newDblVal;
@@ -980,6 +1002,8 @@ void HandleConfigFileOptions( configOptions *configFileOptions,
       if (mainOptions->originalSkySet) {
         printf("Original-sky value in config file ignored (using command-line value)\n");
       } else {
+        CheckConfigFileValue(configFileOptions->optionValues[i], kAnyReal, false,
+        					"ORIGINAL_SKY should be a real number");
         newDblVal = strtod(configFileOptions->optionValues[i].c_str(), nullptr);
         printf("Value from config file: original sky = %f\n", newDblVal);
         mainOptions->originalSky = newDblVal;
@@ -990,6 +1014,8 @@ void HandleConfigFileOptions( configOptions *configFileOptions,
       if (mainOptions->nCombinedSet) {
         printf("nCombined value in config file ignored (using command-line value)\n");
       } else {
+        CheckConfigFileValue(configFileOptions->optionValues[i], kPosInt, false,
+        					"NCOMBINED should be a positive integer");
         newIntVal = atoi(configFileOptions->optionValues[i].c_str());
         printf("Value from config file: nCombined = %d\n", newIntVal);
         mainOptions->nCombined = newIntVal;
-- 
2.43.0


From a43b316ceef27dd2684ea7d5eb088a4bf2838d49 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 03:48:18 +0000
Subject: [PATCH 74/90] fix: an incompletely written image could be reported as
 saved (errors while flushing the last data are not reported by CFITSIO)

---
 core/image_io.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/core/image_io.cpp b/core/image_io.cpp
index 9d82534..4d42c03 100644
--- a/core/image_io.cpp
+++ b/core/image_io.cpp
@@ -403,6 +403,21 @@ int SaveVectorAsImage( double *pixelVector, const std::string filename, int nCol
     return -1;
   }
   
+  // CFITSIO does not report errors which happen when the final part of the data
+  // is flushed to the file (e.g., disk full), so check that the file is complete
+  long  lastPixel[2] = {naxes[0], naxes[1]};
+  float  lastValue;
+  if (fits_open_diskfile(&imfile_ptr, filename.c_str(), READONLY, &status) == 0) {
+    problems = fits_read_pix(imfile_ptr, TFLOAT, lastPixel, 1, NULL, &lastValue, NULL,
+                             &status);
+    CloseAfterError(imfile_ptr);
+    if ( problems ) {
+      fprintf(stderr, "\n*** WARNING: FITS file \"%s\" is incomplete!\n    FITSIO error messages follow:", filename.c_str());
+      PrintError(status);
+      return -1;
+    }
+  }
+  
   return 0;
 }
 
-- 
2.43.0


From e6a1414b0a3ec8e006153aa771091ae8925b5ba7 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 03:53:21 +0000
Subject: [PATCH 75/90] fix: oversampling-PSF info objects of multi-image
 programs were released with the wrong function

---
 core/makemultimages_main.cpp | 2 +-
 core/multimfit_main.cpp      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/makemultimages_main.cpp b/core/makemultimages_main.cpp
index 14071a9..bc3253a 100644
--- a/core/makemultimages_main.cpp
+++ b/core/makemultimages_main.cpp
@@ -425,7 +425,7 @@ int main( int argc, char *argv[] )
       vector<PsfOversamplingInfo *>  oversamplingInfoVect = allPsfOversamplingInfoVectors[i];
       if (oversamplingInfoVect.size() > 0) {
         for (int nn = 0; nn < (int)oversamplingInfoVect.size(); nn++)
-          free(oversamplingInfoVect[nn]);
+          delete oversamplingInfoVect[nn];
         oversamplingInfoVect.clear();
       }
     }
diff --git a/core/multimfit_main.cpp b/core/multimfit_main.cpp
index 80fa1b6..1518202 100644
--- a/core/multimfit_main.cpp
+++ b/core/multimfit_main.cpp
@@ -809,7 +809,7 @@ int main(int argc, char *argv[])
       vector<PsfOversamplingInfo *>  oversamplingInfoVect = allPsfOversamplingInfoVectors[i];
       if (oversamplingInfoVect.size() > 0) {
         for (int nn = 0; nn < (int)oversamplingInfoVect.size(); nn++)
-          free(oversamplingInfoVect[nn]);
+          delete oversamplingInfoVect[nn];
         oversamplingInfoVect.clear();
       }
     }
-- 
2.43.0


From 6ee34537a690485c41a8d7def8660e0ffa7cd459 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 03:53:21 +0000
Subject: [PATCH 76/90] fix: multimfit used uninitialised choice of fit
 statistic

---
 core/options_base.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/options_base.h b/core/options_base.h
index 259ffd3..93acbcf 100644
--- a/core/options_base.h
+++ b/core/options_base.h
@@ -68,6 +68,9 @@ class OptionsBase
 
       printFitStatisticOnly = false;
       solver = MPFIT_SOLVER;
+      useModelForErrors = false;
+      useCashStatistic = false;
+      usePoissonMLR = false;
 
       subsamplingFlag = true;
 
-- 
2.43.0


From 9df18156b04d0f73ffd431c17a0df2d5a997b012 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 03:54:06 +0000
Subject: [PATCH 77/90] fix: best-fit image-info file left out exposure time,
 mask format and type of errors

---
 core/print_results_multi.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/core/print_results_multi.cpp b/core/print_results_multi.cpp
index 003a7e1..808d9a0 100644
--- a/core/print_results_multi.cpp
+++ b/core/print_results_multi.cpp
@@ -182,13 +182,23 @@ void PrintSingleImageInfoToStrings( const ImageInfo& imInfo, vector<string>& str
     strings.push_back(PrintToString("GAIN\t\t%g\n", imInfo.gain));
   if (imInfo.readNoise != 0.0)
     strings.push_back(PrintToString("READNOISE\t\t%g\n", imInfo.readNoise));
+  if (imInfo.expTime != 1.0)
+    strings.push_back(PrintToString("EXPTIME\t\t%g\n", imInfo.expTime));
   if (imInfo.nCombined != 1)
     strings.push_back(PrintToString("NCOMBINED\t\t%d\n", imInfo.nCombined));
   // mask, error, and PSF images
-  if (imInfo.maskImage_present)
+  if (imInfo.maskImage_present) {
     strings.push_back(PrintToString("MASK    %s\n", imInfo.maskImageFileName.c_str()));
-  if (imInfo.errorImage_present)
+    if (imInfo.maskFormat == MASK_ZERO_IS_BAD)
+      strings.push_back("MASK_ZERO_IS_BAD\n");
+  }
+  if (imInfo.errorImage_present) {
     strings.push_back(PrintToString("ERROR    %s\n", imInfo.errorImageFileName.c_str()));
+    if (imInfo.errorType == WEIGHTS_ARE_VARIANCES)
+      strings.push_back("ERRORS_ARE_VARIANCES\n");
+    else if (imInfo.errorType == WEIGHTS_ARE_WEIGHTS)
+      strings.push_back("ERRORS_ARE_WEIGHTS\n");
+  }
   if (imInfo.psfImage_present)
     strings.push_back(PrintToString("PSF    %s\n", imInfo.psfImageFileName.c_str()));
 
-- 
2.43.0


From 86ef7e90d2cbe25b8cbe91c691d52d3d50f3589c Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 04:00:56 +0000
Subject: [PATCH 78/90] fix: makemultimages saved images although --nosave was
 given

---
 core/makemultimages_main.cpp | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/core/makemultimages_main.cpp b/core/makemultimages_main.cpp
index bc3253a..d58afb8 100644
--- a/core/makemultimages_main.cpp
+++ b/core/makemultimages_main.cpp
@@ -389,18 +389,20 @@ int main( int argc, char *argv[] )
   theMultImageModel->CreateAllModelImages(paramsVect);
   nImages = theMultImageModel->GetNImages();
   int  nColsThisImage, nRowsThisImage;
-  for (int i = 0; i < nImages; i++) {
-    std::tie(nColsThisImage, nRowsThisImage) = theMultImageModel->GetImageDimensions(i);
-    string multImageOutputName = PrintToString("%s_%d.fits", options->outputImageName.c_str(), i);
-    printf("MULTIMFIT: image %d: nCols,nRows = %d,%d\n", i, nColsThisImage, nRowsThisImage);
-    printf("   Saving to: %s\n", multImageOutputName.c_str());
-    status = SaveVectorAsImage(theMultImageModel->GetModelImageVector(i), 
-    							multImageOutputName, nColsThisImage, nRowsThisImage,
-    							imageCommentsList);
-    if (status != 0) {
-      fprintf(stderr, "\n*** ERROR: Unable to save image file \"%s\"!\n\n", 
-             multImageOutputName.c_str());
-      exit(-1);
+  if (options->saveImage) {
+    for (int i = 0; i < nImages; i++) {
+      std::tie(nColsThisImage, nRowsThisImage) = theMultImageModel->GetImageDimensions(i);
+      string multImageOutputName = PrintToString("%s_%d.fits", options->outputImageName.c_str(), i);
+      printf("MULTIMFIT: image %d: nCols,nRows = %d,%d\n", i, nColsThisImage, nRowsThisImage);
+      printf("   Saving to: %s\n", multImageOutputName.c_str());
+      status = SaveVectorAsImage(theMultImageModel->GetModelImageVector(i), 
+      							multImageOutputName, nColsThisImage, nRowsThisImage,
+      							imageCommentsList);
+      if (status != 0) {
+        fprintf(stderr, "\n*** ERROR: Unable to save image file \"%s\"!\n\n", 
+               multImageOutputName.c_str());
+        exit(-1);
+      }
     }
   }
 
-- 
2.43.0


From 21ae6d5ab3e6a3620f1cfbba2b5c8af48d69424f Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 04:00:56 +0000
Subject: [PATCH 79/90] fix: image-info values which are not numbers were read
 as zero (zero oversampling scale aborted the programs)

---
 core/imageparams_file_parser.cpp | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/core/imageparams_file_parser.cpp b/core/imageparams_file_parser.cpp
index 0312e32..8d43bcc 100644
--- a/core/imageparams_file_parser.cpp
+++ b/core/imageparams_file_parser.cpp
@@ -448,6 +448,19 @@ int StoreInfoFromLine( const string inputLine, ImageInfo& imageInfo )
   SplitString(theLine, stringPieces);
   parameterName = stringPieces[0];
     
+  // check that simple numerical values really are numbers
+  if ((parameterName == PARAMETER_NAME_GAIN) || (parameterName == PARAMETER_NAME_READNOISE)
+  	|| (parameterName == PARAMETER_NAME_ORIGINAL_SKY) || (parameterName == PARAMETER_NAME_EXPTIME)
+  	|| (parameterName == PARAMETER_NAME_WEIGHT) || (parameterName == PARAMETER_NAME_NCOMBINED)
+  	|| (parameterName == PARAMETER_NAME_NCOLS) || (parameterName == PARAMETER_NAME_NROWS)
+  	|| (parameterName == PARAMETER_NAME_OVERPSF_SCALE)) {
+    if (! IsNumeric(stringPieces[1].c_str())) {
+      fprintf(stderr, "*** ERROR: value for %s in image-info file is not a number (\"%s\")!\n",
+      			parameterName.c_str(), stringPieces[1].c_str());
+      return -1;
+    }
+  }
+
   // floating-point values
   if (parameterName == PARAMETER_NAME_GAIN) 
     imageInfo.gain = strtod(stringPieces[1].c_str(), nullptr);
@@ -557,6 +570,11 @@ int StoreInfoFromLine( const string inputLine, ImageInfo& imageInfo )
   // Special cases of oversampled PSF specifications
   else if (parameterName == PARAMETER_NAME_OVERPSF_SCALE) {
     int osampleScale = (int)strtol(stringPieces[1].c_str(), nullptr, 0);
+    if (osampleScale < 1) {
+      fprintf(stderr, "*** ERROR: oversampling scale in image-info file must be >= 1 (\"%s\")!\n",
+      			stringPieces[1].c_str());
+      return -1;
+    }
     imageInfo.psfOversamplingScales.push_back(osampleScale);
     imageInfo.nOversamplingScales += 1;
   }
@@ -607,7 +625,8 @@ int StoreInfoFromLine( const string inputLine, ImageInfo& imageInfo )
 // and populates the input vector of ImageInfo objects, one for each specified
 // image.
 // Returns 0 for standard operation (no per-image functions found); returns 
-// index (> 0) for first line of per-image-function section if it exists
+// index (> 0) for first line of per-image-function section if it exists; returns
+// -1 if a line has an invalid value
 int AddInfoFromLines( const vector<string>& lines, vector<ImageInfo>& imageInfoList )
 {
   ImageInfo newImageInfo = ImageInfo();
@@ -619,7 +638,8 @@ int AddInfoFromLines( const vector<string>& lines, vector<ImageInfo>& imageInfoL
       returnVal = i;
       break;
     }
-    StoreInfoFromLine(lines[i], newImageInfo);
+    if (StoreInfoFromLine(lines[i], newImageInfo) < 0)
+      return -1;
   }
   imageInfoList.push_back(newImageInfo);
   
@@ -703,6 +723,8 @@ int ReadImageParamsFile( const string& configFileName, int& nImages,
       currentImageLines.push_back(inputLines[i]);
     // start of per-image functions section is relative to currentImageLines (0 = no such section)
     imageFunctionsOffset = AddInfoFromLines(currentImageLines, imageInfoList);
+    if (imageFunctionsOffset < 0)
+      return -1;
     // process per-image function lines, if they exist
     if (imageFunctionsOffset > 0) {
       // start with global location of current per-image functions section
-- 
2.43.0


From 396aa18fcd26b987425c05fd50daf716c0483f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:21 +0000
Subject: [PATCH 80/90] fix: psfconvolve1d refuses PSF profiles with more rows
 than the data profile

---
 profile_fitting/psfconvolve1d_main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/profile_fitting/psfconvolve1d_main.cpp b/profile_fitting/psfconvolve1d_main.cpp
index 53b0767..f091279 100644
--- a/profile_fitting/psfconvolve1d_main.cpp
+++ b/profile_fitting/psfconvolve1d_main.cpp
@@ -153,7 +153,7 @@ int main(int argc, char *argv[])
 
   nSavedRows = ReadDataFile(options.psfProfileName, startDataRow, endDataRow, 
                              xVals_psf, yVals_psf, NULL, NULL);
-  if (nSavedRows > nStoredDataVals) {
+  if (nSavedRows > nPSFVals) {
     fprintf(stderr, "\nMore PSF rows saved (%d) than we allocated space for (%d)!\n",
             nSavedRows, nPSFVals);
     exit(-1);
-- 
2.43.0


From 7aeb42161fb86adf6a1a7aeacc2a76dc40bce8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:29 +0000
Subject: [PATCH 81/90] fix: lines of profile files with more than 1022
 characters were split into several lines

---
 profile_fitting/read_profile.cpp | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/profile_fitting/read_profile.cpp b/profile_fitting/read_profile.cpp
index 3c5f41a..cdc20b2 100644
--- a/profile_fitting/read_profile.cpp
+++ b/profile_fitting/read_profile.cpp
@@ -49,10 +49,25 @@ using namespace std;
 #define  NO_DATA_ERR_STRING4 "\n   Missing mask value on line %ld of %s!\n\n"
 
 
+// Reads the next line of the file (of any length); returns false if there is none
+static bool ReadLine( FILE *file_ptr, string& line )
+{
+  char  buf[MAXLINE];
+  
+  line.clear();
+  while ( fgets(buf, MAXLINE - 1, file_ptr) != NULL ) {
+    line += buf;
+    if (line[line.size() - 1] == '\n')
+      break;
+  }
+  return (! line.empty());
+}
+
+
 long CountDataLines( string& fileName )
 {
   FILE *file_ptr;
-  char  buf[MAXLINE];
+  string  currentLine;
   long  counter = 0;
   
   if ((file_ptr = fopen(fileName.c_str(), "r")) == NULL) {
@@ -62,9 +77,9 @@ long CountDataLines( string& fileName )
 
   // First, count how many data lines there are:
   while ( !feof(file_ptr) ) {
-    if ( fgets(buf, MAXLINE - 1, file_ptr) != NULL ) {
+    if ( ReadLine(file_ptr, currentLine) ) {
       // Count line if it does *not* starts with "#":
-      if ( strncmp(buf, "#", 1) != 0 )
+      if ( currentLine[0] != '#' )
         counter++;
     }
   }
@@ -90,7 +105,6 @@ long ReadDataFile( string& fileName, long startDataRow, long endDataRow,
  */
 {
   FILE *file_ptr;
-  char  buf[MAXLINE];
   string  currentLine;
   vector<string>  stringPieces;
   int  nPieces;
@@ -116,8 +130,7 @@ long ReadDataFile( string& fileName, long startDataRow, long endDataRow,
     
   while ( !feof(file_ptr) ) {
     nRow++;
-    if ( fgets(buf, MAXLINE - 1, file_ptr) != NULL ) {
-      currentLine = buf;
+    if ( ReadLine(file_ptr, currentLine) ) {
       // Process line if it does *not* starts with "#":
       if ( currentLine[0] != '#' ) {
         // this is a valid data line...
-- 
2.43.0


From aa95cebd1dc1da610033ed081b04d2e1339b0656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:29 +0000
Subject: [PATCH 82/90] fix: psfconvolve1d reported success when the output
 profile could not be written

---
 profile_fitting/psfconvolve1d_main.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/profile_fitting/psfconvolve1d_main.cpp b/profile_fitting/psfconvolve1d_main.cpp
index f091279..79e278e 100644
--- a/profile_fitting/psfconvolve1d_main.cpp
+++ b/profile_fitting/psfconvolve1d_main.cpp
@@ -27,6 +27,7 @@
 #define DEFAULT_OUTPUT_FILENAME   "convolve1d_out.dat"
 
 #define  FILE_OPENW_ERR_STRING "\n   Couldn't open file \"%s\" for writing!\n\n"
+#define  FILE_WRITE_ERR_STRING "\n   Couldn't write all data to file \"%s\"!\n\n"
 
 
 typedef struct {
@@ -274,7 +275,11 @@ void SaveProfile( std::string& fileName, double *xVals, double *yVals, int nData
     fprintf(file_ptr, "%f\t%f\n", xVals[i], yVals[i]);
   }
   
-  fclose(file_ptr);
+  bool  writeError = (ferror(file_ptr) != 0);
+  if ( (fclose(file_ptr) != 0) || writeError ) {
+    fprintf(stderr, FILE_WRITE_ERR_STRING, fileName.c_str());
+    exit(-1);
+  }
 }
 
 
-- 
2.43.0


From 7f2308a719d1574257c5eba9a8fe093c91691f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:30 +0000
Subject: [PATCH 83/90] fix: text output files that could not be written
 completely were passed over in silence

---
 core/imfit_main.cpp          |  6 +++---
 core/makeimage_main.cpp      |  4 ++--
 core/multimfit_main.cpp      |  6 +++---
 core/print_results.cpp       |  2 +-
 core/print_results_multi.cpp |  6 +++---
 core/utilities.cpp           | 12 ++++++++++++
 core/utilities_pub.h         |  5 +++++
 7 files changed, 29 insertions(+), 12 deletions(-)

diff --git a/core/imfit_main.cpp b/core/imfit_main.cpp
index 932270e..39eb790 100644
--- a/core/imfit_main.cpp
+++ b/core/imfit_main.cpp
@@ -432,10 +432,10 @@ int main(int argc, char *argv[])
     									bootstrapSaveFile_ptr, options->rngSeed);
     gettimeofday(&timer_end_bootstrap, nullptr);
     if (options->saveBootstrap) {
-      if (nSucessfulIterations > 0)
-        printf("Bootstrap-resampling output saved to file \"%s\".\n", options->outputBootstrapFileName.c_str());
       // even if we didn't have any successful iterations, we need to close the file
-      fclose(bootstrapSaveFile_ptr);
+      bool  outputSaved = CloseOutputFile(bootstrapSaveFile_ptr, options->outputBootstrapFileName);
+      if (outputSaved && (nSucessfulIterations > 0))
+        printf("Bootstrap-resampling output saved to file \"%s\".\n", options->outputBootstrapFileName.c_str());
     }
     didBootstrap = true;
   }
diff --git a/core/makeimage_main.cpp b/core/makeimage_main.cpp
index c4677b8..49483f2 100644
--- a/core/makeimage_main.cpp
+++ b/core/makeimage_main.cpp
@@ -822,8 +822,8 @@ void DetermineFluxes( ModelObject *theModel, double *parameters,
       fprintf(file_ptr, "%s", headerLines[n].c_str());
     for (n = 0; n < (int)saveFluxesLines.size(); n++)
       fprintf(file_ptr, "%s", saveFluxesLines[n].c_str());
-    fclose(file_ptr);
-    printf("\nEstimated fluxes saved to file %s.\n", options->saveFluxesFileName.c_str());
+    if (CloseOutputFile(file_ptr, options->saveFluxesFileName))
+      printf("\nEstimated fluxes saved to file %s.\n", options->saveFluxesFileName.c_str());
   }
 
   free(fluxes);
diff --git a/core/multimfit_main.cpp b/core/multimfit_main.cpp
index 1518202..d5c1797 100644
--- a/core/multimfit_main.cpp
+++ b/core/multimfit_main.cpp
@@ -768,10 +768,10 @@ int main(int argc, char *argv[])
     									bootstrapSaveFile_ptr, options->rngSeed, true);
     gettimeofday(&timer_end_bootstrap, NULL);
     if (options->saveBootstrap) {
-      if (nSucessfulIterations > 0)
-        printf("\nBootstrap-resampling output saved to file \"%s\".\n", options->outputBootstrapFileName.c_str());
       // even if we didn't have any successful iterations, we need to close the file
-      fclose(bootstrapSaveFile_ptr);
+      bool  outputSaved = CloseOutputFile(bootstrapSaveFile_ptr, options->outputBootstrapFileName);
+      if (outputSaved && (nSucessfulIterations > 0))
+        printf("\nBootstrap-resampling output saved to file \"%s\".\n", options->outputBootstrapFileName.c_str());
     }
     didBootstrap = true;
   }
diff --git a/core/print_results.cpp b/core/print_results.cpp
index f7dceba..466be41 100644
--- a/core/print_results.cpp
+++ b/core/print_results.cpp
@@ -286,7 +286,7 @@ void SaveParameters( double *params, ModelObject *model, string& outputFilename,
   else
     PrintParameters(file_ptr, model, params, nullptr);
 
-  fclose(file_ptr);
+  CloseOutputFile(file_ptr, outputFilename);
 }
 
 
diff --git a/core/print_results_multi.cpp b/core/print_results_multi.cpp
index 808d9a0..3c26d1d 100644
--- a/core/print_results_multi.cpp
+++ b/core/print_results_multi.cpp
@@ -71,7 +71,7 @@ void SaveMultImageParameters( double *params, ModelObjectMultImage *multModel,
     file_ptr = fopen(newFilename.c_str(), "w");
     if (file_ptr == nullptr) {
       fprintf(stderr, FILE_OPEN_ERR_STRING, newFilename.c_str());
-      return;
+      continue;
     }
     for (auto line: outputHeader)
       fprintf(file_ptr, "%s\n", line.c_str());
@@ -80,7 +80,7 @@ void SaveMultImageParameters( double *params, ModelObjectMultImage *multModel,
     multModel->GetParameterStringsForOneImage(stringsForFile, params, i);
     for (auto line: stringsForFile)
       fprintf(file_ptr, "%s", line.c_str());
-    fclose(file_ptr);
+    CloseOutputFile(file_ptr, newFilename);
   }
 }
 
@@ -150,7 +150,7 @@ void SaveImageInfoParameters( double *params, ModelObjectMultImage *multModel,
       fprintf(file_ptr, "\n# IMAGE PARAMETERS\n\n");
       for (auto line: stringsForFile)
         fprintf(file_ptr, "%s", line.c_str());
-      fclose(file_ptr);
+      CloseOutputFile(file_ptr, outputFilename);
     }
     else
       fprintf(stderr, FILE_OPEN_ERR_STRING, outputFilename.c_str());
diff --git a/core/utilities.cpp b/core/utilities.cpp
index 792fe04..78796bd 100644
--- a/core/utilities.cpp
+++ b/core/utilities.cpp
@@ -59,6 +59,18 @@ string PrintToString( const char *fmt, ... )
   return buf;
 }
 
+// Closes a file which was opened for writing, checking that everything was written
+bool CloseOutputFile( FILE *file_ptr, const string& fileName )
+{
+  bool  writeError = (ferror(file_ptr) != 0);
+  if ( (fclose(file_ptr) != 0) || writeError ) {
+    fprintf(stderr, "\n*** WARNING: Unable to write all of the output to file \"%s\"!\n\n",
+    		fileName.c_str());
+    return false;
+  }
+  return true;
+}
+
 // Main function which does the work for PrintToString
 string vformat( const char *fmt, va_list ap )
 {
diff --git a/core/utilities_pub.h b/core/utilities_pub.h
index 55f1c37..7238973 100644
--- a/core/utilities_pub.h
+++ b/core/utilities_pub.h
@@ -5,6 +5,7 @@
 #ifndef _UTILITIES_PUB_H_
 #define _UTILITIES_PUB_H_
 
+#include <stdio.h>
 #include <string>
 #include <vector>
 #include <tuple>
@@ -33,6 +34,10 @@ const int HDR_WEIGHTIMAGE = 3;
 /// like fprintf, but returns a string instead of writing to a file
 string PrintToString( const char *fmt, ... );
 
+/// Closes a file which was opened for writing; prints a warning and returns false if
+/// not everything could be written to it
+bool CloseOutputFile( FILE *file_ptr, const string& fileName );
+
 
 /// \brief Generates vector of strings containing program name, time stamp,
 ///        and command-line invocation, intended to be written to start of
-- 
2.43.0


From d9c5f5ab5126eacd69485a5d0bbac623b1005f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:14 +0000
Subject: [PATCH 84/90] fix: imfit.py could not read bootstrap output and MCMC
 chains with fewer than 100 lines or long headers

---
 python/imfit.py | 47 ++++++++++++++++++++---------------------------
 1 file changed, 20 insertions(+), 27 deletions(-)

diff --git a/python/imfit.py b/python/imfit.py
index 6d52c4d..cef5a1f 100644
--- a/python/imfit.py
+++ b/python/imfit.py
@@ -140,6 +140,19 @@ def ReadImfitConfigFile( fileName, minorAxis=False, pix=1.0, getNames=False, X0=
 
 # Code for reading output of bootstrap resampling and MCMC chains
 
+def GetColumnNames( fileName, headerText ):
+    """Returns the list of column names in an output file, i.e. the words of the
+    commented line which follows the comment line containing headerText (None, with
+    an error message, if there is no such line).
+    """
+    with open(fileName) as theFile:
+        for line in theFile:
+            if line[0] == "#" and line.find(headerText) >= 0:
+                return next(theFile, "")[1:].split()
+    print("ERROR: no column names (\"%s\") found in file \"%s\"!" % (headerText, fileName))
+    return None
+
+
 def GetBootstrapOutput( fileName ):
     """Reads imfit's bootstrap-resampling output when saved using the
     --save-bootstrap command-line option.
@@ -163,23 +176,11 @@ def GetBootstrapOutput( fileName ):
         print(txt)
         return None
 
-    # get first 100 lines
-    # FIXME: file *could* be shorter than 100 lines; really complicated
-    # model could have > 100 lines of header...
-    with open(fileName) as theFile:
-        firstLines = [next(theFile) for x in range(100)]
-
     # find header line with column names and extract column names
-    for i in range(len(firstLines)):
-        if firstLines[i].find("# Bootstrap resampling output") >= 0:
-            columnNamesIndex = i + 1
-            break
-    columnNames = firstLines[columnNamesIndex][1:].split()
-    for i in range(len(columnNames)):
-        if columnNames[i] == "likelihood":
-            nParamColumns = i
-            break
-    
+    columnNames = GetColumnNames(fileName, "# Bootstrap resampling output")
+    if columnNames is None:
+        return None
+
     # get the data
     d = GetDataColumns(fileName)
     
@@ -214,18 +215,10 @@ def GetSingleChain( fileName, getAllColumns=False ):
         print(txt)
         return None
 
-    # get first 100 lines
-    # FIXME: file *could* be shorter than 100 lines; really complicated
-    # model could have > 100 lines of header...
-    with open(fileName) as theFile:
-        firstLines = [next(theFile) for x in range(100)]
-
     # find header line with column names and extract column names
-    for i in range(len(firstLines)):
-        if firstLines[i].find("# Column Headers") >= 0:
-            columnNamesIndex = i + 1
-            break
-    columnNames = firstLines[columnNamesIndex][1:].split()
+    columnNames = GetColumnNames(fileName, "# Column Headers")
+    if columnNames is None:
+        return None
     for i in range(len(columnNames)):
         if columnNames[i] == "likelihood":
             nParamColumns = i
-- 
2.43.0


From c400c687716133485b5f87a05f47b04aa76e9f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:14 +0000
Subject: [PATCH 85/90] fix: imfit.py read output files with one row or one
 column as one-dimensional arrays

---
 python/imfit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/imfit.py b/python/imfit.py
index cef5a1f..78c8fca 100644
--- a/python/imfit.py
+++ b/python/imfit.py
@@ -16,7 +16,7 @@ try:
         return df.values
 except:
     def GetDataColumns( filename, usecols=None ):
-        return np.loadtxt(filename, usecols=usecols)
+        return np.loadtxt(filename, usecols=usecols, ndmin=2)
 
 
 # dictionary mapping imfit function short names (as found in the config/parameter file) to
-- 
2.43.0


From 221dac8ff95ed1de366a321ebaad0b796a10d6ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:14 +0000
Subject: [PATCH 86/90] fix: MergeChains with maxChains looked for chain files
 starting at number 0 instead of 1

---
 python/imfit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/imfit.py b/python/imfit.py
index 78c8fca..7794be6 100644
--- a/python/imfit.py
+++ b/python/imfit.py
@@ -289,7 +289,7 @@ def MergeChains( fname_root, maxChains=None, getAllColumns=False, start=10000, l
             print(txt)
             return None
     else:
-        filenames = ["{0}.{1}.txt".format(fname_root, n) for n in range(maxChains)]
+        filenames = ["{0}.{1}.txt".format(fname_root, n) for n in range(1, maxChains + 1)]
     nFiles = len(filenames)
     
     # check to see if any are missing (shouldn't happen for maxChains=None, since
-- 
2.43.0


From 8850e16f0b326528cdc6cd4dd9e2338e94324c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:14 +0000
Subject: [PATCH 87/90] fix: ReadImfitConfigFile took image-description lines
 for parameters and refused indented lines and comments

---
 python/imfit.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/python/imfit.py b/python/imfit.py
index 7794be6..4b2f841 100644
--- a/python/imfit.py
+++ b/python/imfit.py
@@ -72,14 +72,14 @@ def ReadImfitConfigFile( fileName, minorAxis=False, pix=1.0, getNames=False, X0=
         print(txt)
         return None
     
-    dlines = [ line for line in open(fileName) if len(line.strip()) > 0 and line[0] != "#" ]
+    dlines = [ line for line in open(fileName) if len(ChopComments(line).strip()) > 0 ]
 
     funcNameList = []
     paramMetaList = []
     currentParamList = []
     nLines = len(dlines)
     for line in dlines:
-        trimmedLine = ChopComments(line)
+        trimmedLine = ChopComments(line).strip()
         if trimmedLine.find("X0") == 0:
             continue
         if trimmedLine.find("Y0") == 0:
@@ -94,6 +94,9 @@ def ReadImfitConfigFile( fileName, minorAxis=False, pix=1.0, getNames=False, X0=
             fname = pp[1].strip()
             funcNameList.append(fname)
             continue
+        elif len(funcNameList) == 0:
+            # image-description parameters (GAIN, etc.) before the first function
+            continue
         else:
             pp = trimmedLine.split()
             newValue = float(pp[1])
-- 
2.43.0


From b2b88ab6392fa93505ac12ade09c7645f5dbe541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:29 +0000
Subject: [PATCH 88/90] fix: ReadImfitConfigFile did not convert the break
 sharpness (alpha) of BrokenExponential with the pixel scale

---
 python/imfit.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/python/imfit.py b/python/imfit.py
index 4b2f841..65fc935 100644
--- a/python/imfit.py
+++ b/python/imfit.py
@@ -25,6 +25,7 @@ except:
 #    "nSkip" = the number of 2D-related  parameters to skip (e.g., PA, ellipticity), 
 #    "ell" = index for ellipticity parameter, if it exists, 
 #    "a" = index or indices for semi-major-axis parameters (r_e, h, sigma, etc.)
+#    "inv_a" = index or indices for parameters in units of inverse length, if they exist
 imfitFunctionMap = {"Exponential": {"function": imfuncs.Exponential, "nSkip": 2, "ell": 1, "a": [3]}, 
                 "Exponential_GenEllipse": {"function": imfuncs.Exponential, "nSkip": 3, "ell": 1, "a": [4]},
                 "Sersic":  {"function": imfuncs.Sersic, "nSkip": 2, "ell": 1, "a": [4]},
@@ -33,7 +34,8 @@ imfitFunctionMap = {"Exponential": {"function": imfuncs.Exponential, "nSkip": 2,
                 "GaussianRing":  {"function": imfuncs.GaussRing, "nSkip": 2, "ell": 1, "a": [3,4]},
                 "GaussianRing2Side":  {"function": imfuncs.GaussRing2Side, "nSkip": 2, "ell": 1, "a": [3,4,5]},
                 "Moffat": {"function": imfuncs.Moffat, "nSkip": 2, "ell": 1, "a": [3]},
-                "BrokenExponential":  {"function": imfuncs.BrokenExp, "nSkip": 2, "ell": 1, "a": [3,4,5]}}
+                "BrokenExponential":  {"function": imfuncs.BrokenExp, "nSkip": 2, "ell": 1, "a": [3,4,5],
+                                        "inv_a": [6]}}
 
 
 
@@ -126,6 +128,8 @@ def ReadImfitConfigFile( fileName, minorAxis=False, pix=1.0, getNames=False, X0=
         for smaIndex in smaIndices:
             # +1 to account for X0 value at beginning of parameter list
             fullParams[smaIndex+1] = pix*q*fullParams[smaIndex+1]
+        for invIndex in imfitFunctionMap[fname].get("inv_a", []):
+            fullParams[invIndex+1] = fullParams[invIndex+1]/(pix*q)
         # construct the final 1-D parameter set for this function: X0 value, followed
         # by post-2D-shape parameters
         trimmedParams = [fullParams[0]]
-- 
2.43.0


From 04523074b74bfa9503d8fac9b7cc5cc17d081341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:11 +0000
Subject: [PATCH 89/90] fix: the Python Sersic functions failed when mpmath is
 not installed

---
 python/imfit_funcs.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/imfit_funcs.py b/python/imfit_funcs.py
index 0b4c423..43dc43e 100644
--- a/python/imfit_funcs.py
+++ b/python/imfit_funcs.py
@@ -21,9 +21,11 @@
 import math
 import numpy as np
 import scipy.optimize
+import scipy.special
 
-def gammainc_lower_scipy( z, b ):
-    return scipy.special.gamma(z) * scipy.special.gammainc(z, b)
+def gammainc_lower_scipy( z, a, b ):
+    """Incomplete gamma function between a and b (same arguments as mpmath.gammainc)"""
+    return scipy.special.gamma(z) * (scipy.special.gammainc(z, b) - scipy.special.gammainc(z, a))
 
 try:
     from mpmath import besselk as BesselK
-- 
2.43.0


From 02943b7bdcfecd9943a9f085208e083d5cc6cf9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:07:45 +0000
Subject: [PATCH 90/90] fix: after Ctrl-C during bootstrap resampling,
 interrupted fits were counted and saved as successful iterations

---
 core/bootstrap_errors.cpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/core/bootstrap_errors.cpp b/core/bootstrap_errors.cpp
index 715ba38..e0c1ce8 100644
--- a/core/bootstrap_errors.cpp
+++ b/core/bootstrap_errors.cpp
@@ -221,6 +221,14 @@ int BootstrapErrorsBase( const double *bestfitParams, vector<mp_par> parameterLi
       						verboseLevel);
 #endif
     }
+#ifndef NO_SIGNALS
+    // User interrupted (e.g., via Ctrl-C): the current fit was stopped before it was
+    // finished (and all subsequent fits would be, too), so don't use it
+    if (stopSignal_flag == 1) {
+      printf("\nBootstrap resampling interrupted after %d of %d iterations\n", nIter, nIterations);
+      break;
+    }
+#endif
     // Store parameters in array (and optionally write them to file) if fit was successful
     // Note that paramsVect has subsection-relative values of X0,Y0, so we need to
     // correct them with paramOffsets
@@ -315,6 +323,15 @@ int BootstrapErrorsArrayOnly( const double *bestfitParams, vector<mp_par> parame
       						verboseLevel);
 #endif
     }
+#ifndef NO_SIGNALS
+    // User interrupted (e.g., via Ctrl-C): the current fit was stopped before it was
+    // finished (and all subsequent fits would be, too), so don't use it
+    if (stopSignal_flag == 1) {
+      if (verboseFlag)
+        printf("\nBootstrap resampling interrupted after %d of %d iterations\n", nIter, nIterations);
+      break;
+    }
+#endif
     // Store parameters in array if fit was successful.
     // Note that paramsVect has image-subsection-relative values of X0,Y0, 
     // so we need to correct them with paramOffsets
-- 
2.43.0

