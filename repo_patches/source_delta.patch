From 529b63417d3ddb275580bd5780b7704d1454dd12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:19 +0000
Subject: [PATCH 01/41] Add a guard to skip composing discarded log prefixes in
 verification builds

Guarded by PPP_VERIF_FAST_LOG; without it nothing changes.
---
 src/utils/Log.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/utils/Log.cpp b/src/utils/Log.cpp
index 10d9dcd..a65b4d6 100755
--- a/src/utils/Log.cpp
+++ b/src/utils/Log.cpp
@@ -88,6 +88,12 @@ ostream& Logger::getostream(const LogLevel& logLevel, int pageNum) const {
 
 // _________________________________________________________________________________________________
 string Logger::createLogMessagePrefix(const LogLevel& logLevel) const {
+#ifdef PPP_VERIF_FAST_LOG
+  // Verification builds do not compose the prefixes of messages that are discarded anyway.
+  if (_logLevel > logLevel) {
+    return "";
+  }
+#endif
   stringstream logLevelStr;
 
   switch (logLevel) {
-- 
2.43.0


From 16e23904281094c2f9b25d848181ab3addf99372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:09 +0000
Subject: [PATCH 02/41] fix: determine the maximum of counters that contain no
 positive values

numeric_limits<double>::min() is the smallest *positive* value, so that max() threw (and the whole
program crashed) if all values are <= 0, for example for font sizes that are rounded to 0.0.
---
 src/utils/Counter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/Counter.cpp b/src/utils/Counter.cpp
index 29e0e1d..fc0edbb 100755
--- a/src/utils/Counter.cpp
+++ b/src/utils/Counter.cpp
@@ -56,7 +56,7 @@ pair<double, unsigned int> DoubleCounter::mostFreqAndCount() const {
 
 // _________________________________________________________________________________________________
 double DoubleCounter::max() const {
-  double max = numeric_limits<double>::min();
+  double max = numeric_limits<double>::lowest();
   bool entryFound = false;
 
   for (auto it = begin(); it != end(); it++) {
-- 
2.43.0


From 91a8ab3cfa8b0ffd14fcd55e980ba4939e727d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:07 +0000
Subject: [PATCH 03/41] fix: consider all allowed overlapping elements on
 computing x-cuts

An element whose rightX is not larger than all previous ones was not added to the queue of the
elements with the largest rightX values even if the queue was not full yet, so that x-cuts with
overlapping elements were missed if the overlapping element is the leftmost one.
---
 src/utils/XYCut.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/utils/XYCut.cpp b/src/utils/XYCut.cpp
index 0306b63..c7d4070 100755
--- a/src/utils/XYCut.cpp
+++ b/src/utils/XYCut.cpp
@@ -183,8 +183,10 @@ bool xCut(const vector<PdfElement*>& elements, double minGapWidth, int maxNumOve
       overlappingElements.push_back(prevElement);
     }
 
-    // Add the element to the queue if its rightX is larger than the smallest rightX in the queue.
-    if (larger(element->pos->rightX, elementsLargestRightXQueue.top()->pos->rightX)) {
+    // Add the element to the queue if the queue is not full yet, or if its rightX is larger than
+    // the smallest rightX in the queue.
+    if (elementsLargestRightXQueue.size() < static_cast<size_t>(qSize) ||
+        larger(element->pos->rightX, elementsLargestRightXQueue.top()->pos->rightX)) {
       elementsLargestRightXQueue.push(element);
     }
   }
-- 
2.43.0


From 56b37720c4481019cd1feff57637092c32c9aa52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:26 +0000
Subject: [PATCH 04/41] fix: strip strings that consist of whitespace only
 without reading outside of the string

---
 src/utils/TextUtils.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/utils/TextUtils.cpp b/src/utils/TextUtils.cpp
index a9e2081..86b0171 100755
--- a/src/utils/TextUtils.cpp
+++ b/src/utils/TextUtils.cpp
@@ -148,12 +148,12 @@ string shorten(const string& str, unsigned int len) {
 // _________________________________________________________________________________________________
 string strip(const string& str) {
   auto start_it = str.begin();
-  auto end_it = str.rbegin();
+  auto end_it = str.end();
 
-  while (isspace(*start_it)) { start_it++; }
-  while (isspace(*end_it)) { end_it++; }
+  while (start_it != end_it && isspace(*start_it)) { start_it++; }
+  while (end_it != start_it && isspace(*(end_it - 1))) { end_it--; }
 
-  return string(start_it, end_it.base());
+  return string(start_it, end_it);
 }
 
 // _________________________________________________________________________________________________
-- 
2.43.0


From 8b65b21b94d154b165028f776168bdb7530d4306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:35 +0000
Subject: [PATCH 05/41] fix: initialize maximum coordinates with the lowest
 double, so that negative coordinates count

---
 src/PdfParsing.cpp                     | 4 ++--
 src/ReadingOrderDetection.cpp          | 4 ++--
 src/TextLinesDetection.cpp             | 6 ++++++
 src/Types.h                            | 4 ++--
 src/WordsDetection.cpp                 | 8 ++++----
 src/utils/PageSegmentationUtils.cpp    | 6 ++++++
 src/utils/TextBlocksDetectionUtils.cpp | 4 ++++
 src/utils/WordsDetectionUtils.cpp      | 4 ++++
 src/utils/XYCut.cpp                    | 4 ++--
 9 files changed, 32 insertions(+), 12 deletions(-)

diff --git a/src/PdfParsing.cpp b/src/PdfParsing.cpp
index a2d8cd5..ccb5eba 100755
--- a/src/PdfParsing.cpp
+++ b/src/PdfParsing.cpp
@@ -612,8 +612,8 @@ void PdfParsing::stroke(GfxState* state) {
   double x, y;
   double leftX = numeric_limits<double>::max();
   double upperY = numeric_limits<double>::max();
-  double rightX = numeric_limits<double>::min();
-  double lowerY = numeric_limits<double>::min();
+  double rightX = numeric_limits<double>::lowest();
+  double lowerY = numeric_limits<double>::lowest();
   const GfxPath* path = state->getPath();
   for (int i = 0; i < path->getNumSubpaths(); i++) {
     const GfxSubpath* subpath = path->getSubpath(i);
diff --git a/src/ReadingOrderDetection.cpp b/src/ReadingOrderDetection.cpp
index a46bef1..685d4ab 100755
--- a/src/ReadingOrderDetection.cpp
+++ b/src/ReadingOrderDetection.cpp
@@ -108,8 +108,8 @@ void ReadingOrderDetection::detectReadingOrder() {
     // Compute the coordinates of the bounding box around the page elements.
     _pageElementsMinX = numeric_limits<double>::max();
     _pageElementsMinY = numeric_limits<double>::max();
-    _pageElementsMaxX = numeric_limits<double>::min();
-    _pageElementsMaxY = numeric_limits<double>::min();
+    _pageElementsMaxX = numeric_limits<double>::lowest();
+    _pageElementsMaxY = numeric_limits<double>::lowest();
     for (const auto* element : pageElements) {
       _pageElementsMinX = minimum(_pageElementsMinX, element->pos->leftX);
       _pageElementsMinY = minimum(_pageElementsMinY, element->pos->upperY);
diff --git a/src/TextLinesDetection.cpp b/src/TextLinesDetection.cpp
index 8e56ad5..315a40d 100755
--- a/src/TextLinesDetection.cpp
+++ b/src/TextLinesDetection.cpp
@@ -8,6 +8,7 @@
 
 #include <algorithm>  // std::sort
 #include <cassert>  // assert
+#include <limits>  // std::numeric_limits
 #include <sstream>  // std::stringstream
 #include <string>
 #include <tuple>
@@ -27,6 +28,7 @@
 
 using std::endl;
 using std::get;
+using std::numeric_limits;
 using std::sort;
 using std::string;
 using std::stringstream;
@@ -410,6 +412,10 @@ void TextLinesDetection::computeTextLineProperties(PdfTextLine* line) const {
 
   // Iterate through the words from left to right and compute the text, the x,y-coordinates of the
   // bounding box, and the font info.
+  line->pos->leftX = numeric_limits<double>::max();
+  line->pos->upperY = numeric_limits<double>::max();
+  line->pos->rightX = numeric_limits<double>::lowest();
+  line->pos->lowerY = numeric_limits<double>::lowest();
   string text;
   StringCounter fontNameCounter;
   DoubleCounter fontSizeCounter;
diff --git a/src/Types.h b/src/Types.h
index 078e739..3b22b70 100644
--- a/src/Types.h
+++ b/src/Types.h
@@ -664,8 +664,8 @@ class PdfTextLine : public PdfTextElement {
   // text line that are *not* subscripted or superscripted.
   double baseBBoxLeftX = numeric_limits<double>::max();
   double baseBBoxUpperY = numeric_limits<double>::max();
-  double baseBBoxRightX = numeric_limits<double>::min();
-  double baseBBoxLowerY = numeric_limits<double>::min();
+  double baseBBoxRightX = numeric_limits<double>::lowest();
+  double baseBBoxLowerY = numeric_limits<double>::lowest();
 
   // The maximum font size among the characters in this text line.
   double maxFontSize = 0.0;
diff --git a/src/WordsDetection.cpp b/src/WordsDetection.cpp
index d6e5084..bc4a964 100755
--- a/src/WordsDetection.cpp
+++ b/src/WordsDetection.cpp
@@ -82,8 +82,8 @@ void WordsDetection::detectWords(PdfPage* page) {
   _activeWord.pos->pageNum = page->pageNum;
   _activeWord.pos->leftX = numeric_limits<double>::max();
   _activeWord.pos->upperY = numeric_limits<double>::max();
-  _activeWord.pos->rightX = numeric_limits<double>::min();
-  _activeWord.pos->lowerY = numeric_limits<double>::min();
+  _activeWord.pos->rightX = numeric_limits<double>::lowest();
+  _activeWord.pos->lowerY = numeric_limits<double>::lowest();
   _activeWord.pos->rotation = 0;
   _activeWord.pos->wMode = 0;
   _activeWord.fontSize = 0;
@@ -138,8 +138,8 @@ void WordsDetection::detectWords(PdfPage* page) {
       _activeWord.characters.clear();
       _activeWord.pos->leftX = numeric_limits<double>::max();
       _activeWord.pos->upperY = numeric_limits<double>::max();
-      _activeWord.pos->rightX = numeric_limits<double>::min();
-      _activeWord.pos->lowerY = numeric_limits<double>::min();
+      _activeWord.pos->rightX = numeric_limits<double>::lowest();
+      _activeWord.pos->lowerY = numeric_limits<double>::lowest();
       _activeWord.pos->rotation = 0;
       _activeWord.pos->wMode = 0;
       _activeWord.fontSize = 0;
diff --git a/src/utils/PageSegmentationUtils.cpp b/src/utils/PageSegmentationUtils.cpp
index 27b07eb..997184d 100755
--- a/src/utils/PageSegmentationUtils.cpp
+++ b/src/utils/PageSegmentationUtils.cpp
@@ -6,6 +6,7 @@
  * Modified under the Poppler project - http://poppler.freedesktop.org
  */
 
+#include <limits>  // std::numeric_limits
 #include <vector>
 
 #include "./MathUtils.h"
@@ -14,6 +15,7 @@
 #include "../Config.h"
 #include "../Types.h"
 
+using std::numeric_limits;
 using std::vector;
 
 using ppp::config::PageSegmentationConfig;
@@ -47,6 +49,10 @@ PdfPageSegment* PageSegmentationUtils::createPageSegment(
   segment->pos->pageNum = !elements.empty() ? elements[0]->pos->pageNum : -1;
 
   // Compute and set the coordinates of the bounding box.
+  if (!elements.empty()) {
+    segment->pos->rightX = numeric_limits<double>::lowest();
+    segment->pos->lowerY = numeric_limits<double>::lowest();
+  }
   for (const auto* element : elements) {
     segment->pos->leftX = minimum(segment->pos->leftX, element->pos->leftX);
     segment->pos->upperY = minimum(segment->pos->upperY, element->pos->upperY);
diff --git a/src/utils/TextBlocksDetectionUtils.cpp b/src/utils/TextBlocksDetectionUtils.cpp
index 0d7d15a..1672e26 100755
--- a/src/utils/TextBlocksDetectionUtils.cpp
+++ b/src/utils/TextBlocksDetectionUtils.cpp
@@ -7,6 +7,7 @@
  */
 
 #include <cassert>  // assert
+#include <limits>  // std::numeric_limits
 #include <regex>
 #include <string>
 #include <unordered_set>
@@ -20,6 +21,7 @@
 #include "./TextUtils.h"
 #include "../Types.h"
 
+using std::numeric_limits;
 using std::pair;
 using std::regex_search;
 using std::smatch;
@@ -700,6 +702,8 @@ void TextBlocksDetectionUtils::createTextBlock(const vector<PdfTextLine*>& lines
   block->rank = blocks->size();
 
   // Compute the bounding box and the trim box and count the different font names and font sizes.
+  block->pos->rightX = numeric_limits<double>::lowest();
+  block->pos->lowerY = numeric_limits<double>::lowest();
   StringCounter fontNameCounter;
   DoubleCounter fontSizeCounter;
   for (size_t i = 0; i < lines.size(); i++) {
diff --git a/src/utils/WordsDetectionUtils.cpp b/src/utils/WordsDetectionUtils.cpp
index f62a499..99b3460 100755
--- a/src/utils/WordsDetectionUtils.cpp
+++ b/src/utils/WordsDetectionUtils.cpp
@@ -7,6 +7,7 @@
  */
 
 #include <cassert>  // assert
+#include <limits>  // std::numeric_limits
 #include <string>
 #include <vector>
 
@@ -16,6 +17,7 @@
 #include "./WordsDetectionUtils.h"
 #include "../Types.h"
 
+using std::numeric_limits;
 using std::string;
 using std::vector;
 
@@ -53,6 +55,8 @@ PdfWord* WordsDetectionUtils::createWord(const vector<PdfCharacter*>& characters
 
   // Iterative through the characters and compute the text, the x,y-coordinates of the
   // bounding box, and the font info.
+  word->pos->rightX = numeric_limits<double>::lowest();
+  word->pos->lowerY = numeric_limits<double>::lowest();
   StringCounter fontNameCounter;
   DoubleCounter fontSizeCounter;
   string text;
diff --git a/src/utils/XYCut.cpp b/src/utils/XYCut.cpp
index c7d4070..1bd3ccb 100755
--- a/src/utils/XYCut.cpp
+++ b/src/utils/XYCut.cpp
@@ -111,7 +111,7 @@ bool xCut(const vector<PdfElement*>& elements, double minGapWidth, int maxNumOve
 
   // Compute minY and maxY among the elements, needed for computing the y-coordinates of the cuts.
   double elementsMinY = numeric_limits<double>::max();
-  double elementsMaxY = numeric_limits<double>::min();
+  double elementsMaxY = numeric_limits<double>::lowest();
   for (const auto* element : sElements) {
     elementsMinY = minimum(elementsMinY, element->pos->upperY);
     elementsMaxY = maximum(elementsMaxY, element->pos->lowerY);
@@ -244,7 +244,7 @@ bool yCut(const vector<PdfElement*>& elements, double minGapHeight,
 
   // Compute minY and maxY among the elements, needed for computing the x-coordinates of the cuts.
   double elementsMinX = numeric_limits<double>::max();
-  double elementsMaxX = numeric_limits<double>::min();
+  double elementsMaxX = numeric_limits<double>::lowest();
   for (const auto* element : sElements) {
     elementsMinX = minimum(elementsMinX, element->pos->leftX);
     elementsMaxX = maximum(elementsMaxX, element->pos->rightX);
-- 
2.43.0


From ef62296532a0f4e0391ae4b7dcda5da76b2309f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:08 +0000
Subject: [PATCH 06/41] fix: compute the gaps between rotated elements with the
 sign that is documented

---
 src/utils/PdfElementsUtils.cpp | 24 ++++--------------------
 1 file changed, 4 insertions(+), 20 deletions(-)

diff --git a/src/utils/PdfElementsUtils.cpp b/src/utils/PdfElementsUtils.cpp
index 8ae53df..3f31dc6 100755
--- a/src/utils/PdfElementsUtils.cpp
+++ b/src/utils/PdfElementsUtils.cpp
@@ -50,16 +50,8 @@ double computeHorizontalGap(const PdfElement* elem1, const PdfElement* elem2) {
     right = elem1;
   }
 
-  // Compute the horizontal gap between the elements, under consideration of the rotation.
-  switch (left->pos->rotation) {
-    case 0:
-    case 1:
-    default:
-      return right->pos->leftX - left->pos->rightX;
-    case 2:
-    case 3:
-      return left->pos->rightX - right->pos->leftX;
-  }
+  // Compute the horizontal gap between the elements.
+  return right->pos->leftX - left->pos->rightX;
 }
 
 // _________________________________________________________________________________________________
@@ -78,16 +70,8 @@ double computeVerticalGap(const PdfElement* elem1, const PdfElement* elem2) {
     lower = elem1;
   }
 
-  // Compute the vertical gap between the elements, under consideration of the rotation.
-  switch (upper->pos->rotation) {
-    case 0:
-    case 1:
-    default:
-      return lower->pos->upperY - upper->pos->lowerY;
-    case 2:
-    case 3:
-      return upper->pos->lowerY - lower->pos->upperY;
-  }
+  // Compute the vertical gap between the elements.
+  return lower->pos->upperY - upper->pos->lowerY;
 }
 
 // _________________________________________________________________________________________________
-- 
2.43.0


From 2f655d0feacac9bb99048b19617eba31992f6dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:08 +0000
Subject: [PATCH 07/41] fix: order the box coordinates of upside-down and
 mirrored characters

---
 src/PdfParsing.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/PdfParsing.cpp b/src/PdfParsing.cpp
index ccb5eba..ccf45d6 100755
--- a/src/PdfParsing.cpp
+++ b/src/PdfParsing.cpp
@@ -455,11 +455,12 @@ void PdfParsing::drawChar(GfxState* state, double x, double y, double dx, double
     }
   }
 
-  // Round the coordinates of the character's bounding box.
-  ch->pos->leftX = round(posLeftX, _config.coordinatePrecision);
-  ch->pos->upperY = round(posUpperY, _config.coordinatePrecision);
-  ch->pos->rightX = round(posRightX, _config.coordinatePrecision);
-  ch->pos->lowerY = round(posLowerY, _config.coordinatePrecision);
+  // Round the coordinates of the character's bounding box. Order the coordinates, since the reading
+  // direction of upside-down or mirrored characters is opposite to the direction of the axes.
+  ch->pos->leftX = round(minimum(posLeftX, posRightX), _config.coordinatePrecision);
+  ch->pos->upperY = round(minimum(posUpperY, posLowerY), _config.coordinatePrecision);
+  ch->pos->rightX = round(maximum(posLeftX, posRightX), _config.coordinatePrecision);
+  ch->pos->lowerY = round(maximum(posUpperY, posLowerY), _config.coordinatePrecision);
   ch->base = round(base, _config.coordinatePrecision);
 
   _log->debug(_p) << " • char.leftX:  " << ch->pos->leftX << endl;
-- 
2.43.0


From 7bf21d5ea0b1d1888166a53acd06f0f5bb1f66fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:08 +0000
Subject: [PATCH 08/41] fix: ignore paths without any point inside the clip box

---
 src/PdfParsing.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/PdfParsing.cpp b/src/PdfParsing.cpp
index ccf45d6..8be90d7 100755
--- a/src/PdfParsing.cpp
+++ b/src/PdfParsing.cpp
@@ -643,6 +643,12 @@ void PdfParsing::stroke(GfxState* state) {
     }
   }
 
+  // Ignore the path if none of its points lies inside the clip box.
+  if (larger(leftX, rightX) || larger(upperY, lowerY)) {
+    _log->debug(_p) << BOLD << "Skipping the path (no visible points)." << OFF << endl;
+    return;
+  }
+
   // Store the information about the path in form of a `PdfShape`.
   PdfShape* shape = new PdfShape();
   shape->id = createRandomString(_config.idLength, "shape-");
-- 
2.43.0


From 4b606d361877d099f80687668a799cc8caa9e7a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:35 +0000
Subject: [PATCH 09/41] fix: assign a word to at most one stacked math symbol,
 so that no word is duplicated or lost

---
 src/WordsDetection.cpp | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/WordsDetection.cpp b/src/WordsDetection.cpp
index bc4a964..70e0a8b 100755
--- a/src/WordsDetection.cpp
+++ b/src/WordsDetection.cpp
@@ -307,6 +307,12 @@ void WordsDetection::mergeStackedMathSymbols(const PdfPage* page) const {
       continue;
     }
 
+    // Skip the word if it is already part of another stacked math symbol.
+    if (word->isPartOfStackedMathSymbol) {
+      _log->debug(p) << BOLD << "Skipping word (part of other stacked symbol)." << OFF << endl;
+      continue;
+    }
+
     // Iterate through the previous words in reversed order (starting at the current word) for
     // checking if they are also part of the stacked math symbol. Consider a word to be part of the
     // stacked math symbol, if the horizontal overlap between the word and the base word is
@@ -335,6 +341,14 @@ void WordsDetection::mergeStackedMathSymbols(const PdfPage* page) const {
         break;
       }
 
+      // The previous word is not a part of the stacked math symbol when it already belongs to another
+      // stacked math symbol.
+      if (prevWord->isPartOfStackedMathSymbol || !prevWord->isBaseOfStackedMathSymbol.empty()) {
+        _log->debug(p) << BOLD << "is *not* part of the stacked math symbol "
+            << "(belongs to other stacked symbol)." << OFF << endl;
+        break;
+      }
+
       // The previous word is not a part of the stacked math symbol when its font size is not
       // smaller than the font size of the base word.
       _log->debug(p) << " • prevWord.fontSize: " << prevWord->fontSize << endl;
@@ -377,6 +391,14 @@ void WordsDetection::mergeStackedMathSymbols(const PdfPage* page) const {
         break;
       }
 
+      // The next word is not a part of the stacked math symbol when it already belongs to another
+      // stacked math symbol.
+      if (nextWord->isPartOfStackedMathSymbol || !nextWord->isBaseOfStackedMathSymbol.empty()) {
+        _log->debug(p) << BOLD << "is *not* part of the stacked math symbol "
+            << "(belongs to other stacked symbol)." << OFF << endl;
+        break;
+      }
+
       // The next word is not a part of the stacked math symbol when its font size is not
       // smaller than the font size of the base word.
       _log->debug(p) << " • nextWord.fontSize: " << nextWord->fontSize << endl;
-- 
2.43.0


From c5dae08c2a8ff03df71c5a91ecc74b9f3dadb51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:18 +0000
Subject: [PATCH 10/41] fix: merge all diacritic marks of a base character,
 without losing any of them

---
 src/DiacriticalMarksMerging.cpp | 37 +++++++++++++++++++++++++++++++--
 1 file changed, 35 insertions(+), 2 deletions(-)

diff --git a/src/DiacriticalMarksMerging.cpp b/src/DiacriticalMarksMerging.cpp
index a1ff54c..a275c05 100755
--- a/src/DiacriticalMarksMerging.cpp
+++ b/src/DiacriticalMarksMerging.cpp
@@ -10,6 +10,8 @@
 #include <utf8proc.h>
 
 #include <cassert>  // assert
+#include <cstdlib>  // free
+#include <string>
 #include <vector>
 
 #include "./DiacriticalMarksMerging.h"
@@ -19,6 +21,7 @@
 #include "./utils/PdfElementsUtils.h"
 
 using std::endl;
+using std::string;
 using std::vector;
 
 using ppp::config::DiacriticalMarksMergingConfig;
@@ -73,11 +76,30 @@ void DiacriticalMarksMerging::process() const {
   for (const auto* page : _doc->pages) {
     int p = page->pageNum;
 
+    // Returns true if the given characters are both diacritic marks that overlap horizontally.
+    auto isOtherMark = [this](const PdfCharacter* ch, const PdfCharacter* mark) {
+      auto isMark = [this](const PdfCharacter* c) {
+        if (c->unicodes.size() != 1) { return false; }
+        auto it = _config->combiningMap.find(c->unicodes[0]);
+        unsigned int unicode = it != _config->combiningMap.end() ? it->second : c->unicodes[0];
+        return unicode >= 0x02B0 && unicode <= 0x036f;
+      };
+      return isMark(ch) && isMark(mark) && larger(computeMaxXOverlapRatio(ch, mark), 0);
+    };
+
     for (size_t i = 0; i < page->characters.size(); i++) {
       PdfCharacter* prevChar = i > 0 ? page->characters[i - 1] : nullptr;
       PdfCharacter* currChar = page->characters[i];
       PdfCharacter* nextChar = i < page->characters.size() - 1 ? page->characters[i + 1] : nullptr;
 
+      // Skip other diacritic marks of the same base character.
+      for (size_t j = i; prevChar && isOtherMark(prevChar, currChar); j--) {
+        prevChar = j > 1 ? page->characters[j - 2] : nullptr;
+      }
+      for (size_t j = i + 2; nextChar && isOtherMark(nextChar, currChar); j++) {
+        nextChar = j < page->characters.size() ? page->characters[j] : nullptr;
+      }
+
       _log->debug(p) << "=======================================" << endl;
       _log->debug(p) << BOLD << "char: \"" << currChar->text << "\"" << OFF << endl;
       _log->debug(p) << " • char.leftX:  " << currChar->pos->leftX << endl;
@@ -184,6 +206,11 @@ void DiacriticalMarksMerging::process() const {
       unicodesMerged.push_back(unicode);
 
       vector<uint8_t> bytesMerged;
+      if (!base->textWithDiacriticMark.empty()) {
+        // The base character was already merged with another mark, so add the mark to that text.
+        for (char c : base->textWithDiacriticMark) { bytesMerged.push_back(c & 0xff); }
+        unicodesMerged = {unicode};
+      }
       char buf[8];
       for (const auto& u : unicodesMerged) {
         int len = uMap->mapUnicode(u, buf, sizeof(buf));
@@ -192,11 +219,17 @@ void DiacriticalMarksMerging::process() const {
         }
       }
 
-      uint8_t* output;
+      uint8_t* output = nullptr;
       int options = UTF8PROC_STABLE | UTF8PROC_COMPOSE;
       utf8proc_map(&bytesMerged[0], bytesMerged.size(), &output, (utf8proc_option_t) options);
 
-      base->textWithDiacriticMark = reinterpret_cast<char*>(output);
+      // The output is null if the merged bytes are not valid UTF-8.
+      if (output) {
+        base->textWithDiacriticMark = reinterpret_cast<char*>(output);
+        free(output);
+      } else {
+        base->textWithDiacriticMark = string(bytesMerged.begin(), bytesMerged.end());
+      }
 
       // Update the bounding box.
       base->pos->leftX = minimum(base->pos->leftX, mark->pos->leftX);
-- 
2.43.0


From 5c3317b3cd5705f29b33e2ead24a38fdfd74efef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:18 +0000
Subject: [PATCH 11/41] fix: extend the merged word when a word is hyphenated
 more than once

---
 src/WordsDehyphenation.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/WordsDehyphenation.cpp b/src/WordsDehyphenation.cpp
index c7a7a82..8d1a96f 100755
--- a/src/WordsDehyphenation.cpp
+++ b/src/WordsDehyphenation.cpp
@@ -38,6 +38,7 @@ void WordsDehyphenation::process() const {
   assert(_doc);
 
   PdfTextLine* prevLine = nullptr;
+  PdfWord* mergedWord = nullptr;
   for (const auto* page : _doc->pages) {
     for (const auto* block : page->blocks) {
       for (auto* line : block->lines) {
@@ -60,12 +61,18 @@ void WordsDehyphenation::process() const {
             string currLineFirstWordText = currLineFirstWord->text;
 
             if (isHyphenated) {
-              PdfWord* mergedWord = new PdfWord();
-              mergedWord->doc = _doc;
-              mergedWord->text = prevLineLastWordText.substr(0, prevLineLastWordText.length() - 1);
+              // If the last word of the previous line is itself the second part of a hyphenated word
+              // (that is: if a word is hyphenated more than once), extend the merged word.
+              if (prevLineLastWord->isSecondPartOfHyphenatedWord) {
+                mergedWord->text.pop_back();
+              } else {
+                mergedWord = new PdfWord();
+                mergedWord->doc = _doc;
+                mergedWord->text = prevLineLastWordText.substr(0, prevLineLastWordText.length() - 1);
+                prevLineLastWord->isFirstPartOfHyphenatedWord = mergedWord;
+              }
               mergedWord->text += currLineFirstWordText;
 
-              prevLineLastWord->isFirstPartOfHyphenatedWord = mergedWord;
               currLineFirstWord->isSecondPartOfHyphenatedWord = mergedWord;
             }
           }
-- 
2.43.0


From 8de0f55cebe3e76b979e775363947fac42551bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:00 +0000
Subject: [PATCH 12/41] fix: do not merge hyphenated words when
 --no-dehyphenation is used

---
 src/pdftotext++.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdftotext++.cpp b/src/pdftotext++.cpp
index 90fe394..21a4224 100755
--- a/src/pdftotext++.cpp
+++ b/src/pdftotext++.cpp
@@ -665,7 +665,7 @@ int main(int argc, char* argv[]) {
   conf.semanticRolesPrediction.logPageFilter = logPageFilter;
   conf.semanticRolesPrediction.modelsDir = CONFIG_SEMANTIC_ROLES_DETECTION_MODELS_DIR;
   // Configure words dehyphenation.
-  conf.wordsDehyphenation.disabled = skipWordsDehyphenation;
+  conf.wordsDehyphenation.disabled = skipWordsDehyphenation || noDehyphenation;
   conf.wordsDehyphenation.logLevel = debugWordsDehyphenation ? DEBUG : logLevel;
   conf.wordsDehyphenation.logPageFilter = logPageFilter;
 
-- 
2.43.0


From 40a92026fcfb23dc54212c54ee051f01d573bc08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:00 +0000
Subject: [PATCH 13/41] fix: serialize all text blocks and all element types
 when no roles and types are given, as documented

---
 src/serializers/JsonlSerializer.cpp             | 13 +++++++++----
 src/serializers/PlainTextExtendedSerializer.cpp |  2 +-
 src/serializers/PlainTextSerializer.cpp         |  2 +-
 3 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/serializers/JsonlSerializer.cpp b/src/serializers/JsonlSerializer.cpp
index f5431c3..58d3b7a 100755
--- a/src/serializers/JsonlSerializer.cpp
+++ b/src/serializers/JsonlSerializer.cpp
@@ -10,6 +10,7 @@
 #include <iostream>
 #include <string>
 #include <unordered_set>
+#include <vector>
 
 #include "./JsonlSerializer.h"
 #include "../utils/MathUtils.h"
@@ -22,6 +23,7 @@ using std::find;
 using std::ostream;
 using std::string;
 using std::unordered_set;
+using std::vector;
 
 using ppp::types::PdfCharacter;
 using ppp::types::PdfDocument;
@@ -33,6 +35,7 @@ using ppp::types::PdfTextBlock;
 using ppp::types::PdfTextLine;
 using ppp::types::PdfWord;
 using ppp::types::SemanticRole;
+using ppp::utils::elements::getPdfElementTypes;
 using ppp::utils::elements::getSemanticRoleName;
 using ppp::utils::math::round;
 using ppp::utils::text::escapeJson;
@@ -54,7 +57,9 @@ void JsonlSerializer::serializeToStream(const PdfDocument* doc,
     const unordered_set<SemanticRole>& roles, const unordered_set<PdfElementType>& units,
     ostream& out) const {
 
-  for (PdfElementType unit : units) {
+  vector<PdfElementType> allUnits = getPdfElementTypes();
+  unordered_set<PdfElementType> unitsSet(allUnits.begin(), allUnits.end());
+  for (PdfElementType unit : units.empty() ? unitsSet : units) {
     switch (unit) {
       case PdfElementType::PAGES:
         serializePages(doc, roles, out);
@@ -105,7 +110,7 @@ void JsonlSerializer::serializeCharacters(const PdfDocument* doc,
   for (const PdfPage* page : doc->pages) {
     for (const PdfTextBlock* block : page->blocks) {
       // Skip the block if its role is not included in 'roles'.
-      if (find(roles.begin(), roles.end(), block->role) == roles.end()) {
+      if (!roles.empty() && find(roles.begin(), roles.end(), block->role) == roles.end()) {
         continue;
       }
 
@@ -209,7 +214,7 @@ void JsonlSerializer::serializeWords(const PdfDocument* doc,
   for (const PdfPage* page : doc->pages) {
     for (const PdfTextBlock* block : page->blocks) {
       // Skip the block if its role is not included in 'roles'.
-      if (find(roles.begin(), roles.end(), block->role) == roles.end()) {
+      if (!roles.empty() && find(roles.begin(), roles.end(), block->role) == roles.end()) {
         continue;
       }
 
@@ -245,7 +250,7 @@ void JsonlSerializer::serializeTextBlocks(const PdfDocument* doc,
   for (const PdfPage* page : doc->pages) {
     for (const PdfTextBlock* block : page->blocks) {
       // Skip the block if its role is not included in 'roles'.
-      if (find(roles.begin(), roles.end(), block->role) == roles.end()) {
+      if (!roles.empty() && find(roles.begin(), roles.end(), block->role) == roles.end()) {
         continue;
       }
 
diff --git a/src/serializers/PlainTextExtendedSerializer.cpp b/src/serializers/PlainTextExtendedSerializer.cpp
index 9d9df11..5a55d8f 100755
--- a/src/serializers/PlainTextExtendedSerializer.cpp
+++ b/src/serializers/PlainTextExtendedSerializer.cpp
@@ -50,7 +50,7 @@ void PlainTextExtendedSerializer::serializeToStream(const PdfDocument* doc,
   for (auto* page : doc->pages) {
     for (auto* block : page->blocks) {
       // Skip the block if its role is not included in 'roles'.
-      if (find(roles.begin(), roles.end(), block->role) == roles.end()) {
+      if (!roles.empty() && find(roles.begin(), roles.end(), block->role) == roles.end()) {
         continue;
       }
 
diff --git a/src/serializers/PlainTextSerializer.cpp b/src/serializers/PlainTextSerializer.cpp
index 6e18e75..306cb9e 100755
--- a/src/serializers/PlainTextSerializer.cpp
+++ b/src/serializers/PlainTextSerializer.cpp
@@ -44,7 +44,7 @@ void PlainTextSerializer::serializeToStream(const PdfDocument* doc,
   for (auto* page : doc->pages) {
     for (auto* block : page->blocks) {
       // Skip the block if its role is not included in 'roles'.
-      if (find(roles.begin(), roles.end(), block->role) == roles.end()) {
+      if (!roles.empty() && find(roles.begin(), roles.end(), block->role) == roles.end()) {
         continue;
       }
 
-- 
2.43.0


From 832f9da599fa131f693ef9f9676a357e5e170f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:00 +0000
Subject: [PATCH 14/41] fix: escape font names in the JSONL output

---
 src/serializers/JsonlSerializer.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/serializers/JsonlSerializer.cpp b/src/serializers/JsonlSerializer.cpp
index 58d3b7a..2e9081a 100755
--- a/src/serializers/JsonlSerializer.cpp
+++ b/src/serializers/JsonlSerializer.cpp
@@ -140,7 +140,7 @@ void JsonlSerializer::serializeCharacters(const PdfDocument* doc,
               << "\"maxY\": " << c->pos->lowerY << ", "
               << "\"wMode\": " << c->pos->wMode << ", "
               << "\"rotation\": " << c->pos->rotation << ", "
-              << "\"font\": \"" << c->fontName << "\", "
+              << "\"font\": \"" << escapeJson(c->fontName) << "\", "
               << "\"fontSize\": " << c->fontSize << ", "
               << "\"weight\": " << fontInfo->weight << ", "
               << "\"italic\": " << (fontInfo->isItalic ? "true" : "false") << ", "
@@ -229,7 +229,7 @@ void JsonlSerializer::serializeWords(const PdfDocument* doc,
             << "\"minY\": " << word->pos->upperY << ", "
             << "\"maxX\": " << word->pos->rightX << ", "
             << "\"maxY\": " << word->pos->lowerY << ", "
-            << "\"font\": \"" << word->fontName << "\", "
+            << "\"font\": \"" << escapeJson(word->fontName) << "\", "
             << "\"fontSize\": " << word->fontSize << ", "
             << "\"text\": \"" << escapeJson(word->text) << "\", "
             << "\"block\": \"" << block->id << "\", "
@@ -263,7 +263,7 @@ void JsonlSerializer::serializeTextBlocks(const PdfDocument* doc,
         << "\"minY\": " << block->pos->upperY << ", "
         << "\"maxX\": " << block->pos->rightX << ", "
         << "\"maxY\": " << block->pos->lowerY << ", "
-        << "\"font\": \"" << block->fontName << "\", "
+        << "\"font\": \"" << escapeJson(block->fontName) << "\", "
         << "\"fontSize\": " << block->fontSize << ", "
         << "\"text\": \"" << escapeJson(block->text) << "\", "
         << "\"role\": \"" << getSemanticRoleName(block->role) << "\", "
-- 
2.43.0


From e60f5240541bd1a507abfe1e130d13feb43306b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:48 +0000
Subject: [PATCH 15/41] fix: fail when the output file cannot be written, and
 create its directory without a shell

---
 src/pdftotext++.cpp            |  4 +++-
 src/serializers/Serializer.cpp | 35 +++++++++++++++++++++-------------
 src/serializers/Serializer.h   |  5 ++++-
 3 files changed, 29 insertions(+), 15 deletions(-)

diff --git a/src/pdftotext++.cpp b/src/pdftotext++.cpp
index 21a4224..f9b4746 100755
--- a/src/pdftotext++.cpp
+++ b/src/pdftotext++.cpp
@@ -711,7 +711,9 @@ int main(int argc, char* argv[]) {
   if (serializer) {
     unordered_set<SemanticRole> rolesSet(roles.begin(), roles.end());
     unordered_set<PdfElementType> typesSet(types.begin(), types.end());
-    serializer->serialize(&doc, rolesSet, typesSet, outputFilePath);
+    if (!serializer->serialize(&doc, rolesSet, typesSet, outputFilePath)) {
+      return EXIT_FAILURE;
+    }
   }
   auto end = high_resolution_clock::now();
   Timing timingSerializeChars("Serialize", duration_cast<milliseconds>(end - start).count());
diff --git a/src/serializers/Serializer.cpp b/src/serializers/Serializer.cpp
index 69bd201..6af05b8 100644
--- a/src/serializers/Serializer.cpp
+++ b/src/serializers/Serializer.cpp
@@ -6,9 +6,11 @@
  * Modified under the Poppler project - http://poppler.freedesktop.org
  */
 
+#include <filesystem>
 #include <fstream>
 #include <iostream>
 #include <string>
+#include <system_error>
 #include <unordered_set>
 
 #include "./Serializer.h"
@@ -17,6 +19,9 @@
 using std::cerr;
 using std::cout;
 using std::endl;
+using std::error_code;
+using std::filesystem::create_directories;
+using std::filesystem::path;
 using std::ofstream;
 using std::string;
 using std::unordered_set;
@@ -30,7 +35,7 @@ using ppp::types::SemanticRole;
 namespace ppp::serialization {
 
 // _________________________________________________________________________________________________
-void Serializer::serialize(
+bool Serializer::serialize(
     const PdfDocument* doc,
     const unordered_set<SemanticRole>& roles,
     const unordered_set<PdfElementType>& types,
@@ -38,30 +43,34 @@ void Serializer::serialize(
   // If the target file path is specified as "-", output the text to stdout.
   if (targetFilePath.size() == 1 && targetFilePath[0] == '-') {
     serializeToStream(doc, roles, types, cout);
-    return;
-  }
-
-  // Compute the path to the parent directory of the target file.
-  string parentDirPath = ".";
-  size_t posLastSlash = targetFilePath.find_last_of("/");
-  if (posLastSlash != string::npos) {
-    parentDirPath = targetFilePath.substr(0, posLastSlash);
+    cout.flush();
+    return cout.good();
   }
 
   // Try to create all intermediate directories if the parent directory does not exist.
-  if (system(("mkdir -p " + parentDirPath).c_str())) {
-    cerr << "Could not create directory '" << parentDirPath << "'." << endl;
-    return;
+  error_code error;
+  path parentDirPath = path(targetFilePath).parent_path();
+  if (!parentDirPath.empty()) {
+    create_directories(parentDirPath, error);
+  }
+  if (error) {
+    cerr << "Could not create directory '" << parentDirPath.string() << "'." << endl;
+    return false;
   }
 
   ofstream outFile(targetFilePath);
   if (!outFile.is_open()) {
     cerr << "Could not open file '" << targetFilePath << "'." << endl;
-    return;
+    return false;
   }
 
   serializeToStream(doc, roles, types, outFile);
   outFile.close();
+  if (outFile.fail()) {
+    cerr << "Could not write file '" << targetFilePath << "'." << endl;
+    return false;
+  }
+  return true;
 }
 
 }  // namespace ppp::serialization
diff --git a/src/serializers/Serializer.h b/src/serializers/Serializer.h
index f97e5e2..beba2b1 100644
--- a/src/serializers/Serializer.h
+++ b/src/serializers/Serializer.h
@@ -48,8 +48,11 @@ class Serializer {
    * @param targetPath
    *   The path to the file to which the text should be written.
    *   NOTE: If specified as "-", the text is written to stdout.
+   *
+   * @return
+   *   True if the text was written completely, false otherwise.
    */
-  void serialize(const PdfDocument* doc, const unordered_set<SemanticRole>& roles,
+  bool serialize(const PdfDocument* doc, const unordered_set<SemanticRole>& roles,
       const unordered_set<PdfElementType>& units, const string& targetPath) const;
 
  protected:
-- 
2.43.0


From c0359a1cdab550b37876e50e7d8f0d44431b2cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:16 +0000
Subject: [PATCH 16/41] fix: fail when the visualization cannot be written

---
 src/PdfDocumentVisualization.cpp | 5 +++--
 src/PdfDocumentVisualization.h   | 5 ++++-
 src/pdftotext++.cpp              | 5 ++++-
 3 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/PdfDocumentVisualization.cpp b/src/PdfDocumentVisualization.cpp
index 0b94730..f18a176 100755
--- a/src/PdfDocumentVisualization.cpp
+++ b/src/PdfDocumentVisualization.cpp
@@ -8,6 +8,7 @@
 
 #include <goo/GooString.h>
 #include <poppler/Annot.h>
+#include <poppler/ErrorCodes.h>
 #include <poppler/PDFDoc.h>
 #include <poppler/PDFDocEncoding.h>
 #include <poppler/PDFDocFactory.h>
@@ -251,9 +252,9 @@ void PdfDocumentVisualization::visualizeReadingOrderCuts(const vector<Cut*>& cut
 }
 
 // _________________________________________________________________________________________________
-void PdfDocumentVisualization::save(const string& targetPath) const {
+bool PdfDocumentVisualization::save(const string& targetPath) const {
   GooString gooTargetPath(targetPath);
-  _pdfDoc->saveAs(gooTargetPath);
+  return _pdfDoc->saveAs(gooTargetPath) == errNone;
 }
 
 // =================================================================================================
diff --git a/src/PdfDocumentVisualization.h b/src/PdfDocumentVisualization.h
index b9682ce..3950e56 100755
--- a/src/PdfDocumentVisualization.h
+++ b/src/PdfDocumentVisualization.h
@@ -251,8 +251,11 @@ class PdfDocumentVisualization {
    *
    * @param targetPath
    *    The path to the file to which the visualization should be written.
+   *
+   * @return
+   *    True if the visualization was written, false otherwise.
    */
-  void save(const string& targetPath) const;
+  bool save(const string& targetPath) const;
 
  private:
   /**
diff --git a/src/pdftotext++.cpp b/src/pdftotext++.cpp
index f9b4746..3581da2 100755
--- a/src/pdftotext++.cpp
+++ b/src/pdftotext++.cpp
@@ -757,7 +757,10 @@ int main(int argc, char* argv[]) {
     if (visualizeReadingOrderCuts) {
       pdv.visualizeReadingOrderCuts(doc, ppp::visualization::color_schemes::blue);
     }
-    pdv.save(visualizeFilePathStr);
+    if (!pdv.save(visualizeFilePathStr)) {
+      cerr << "Could not write file '" << visualizeFilePathStr << "'." << endl;
+      return EXIT_FAILURE;
+    }
     auto end = high_resolution_clock::now();
     Timing timingVisualizing("Visualize", duration_cast<milliseconds>(end - start).count());
     timings.push_back(timingVisualizing);
-- 
2.43.0


From 18c6b8452429f655e14cb2c9cab985cc81b5fb0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:16 +0000
Subject: [PATCH 17/41] fix: consider the rotation of a graphic on computing
 its bounding box

---
 src/PdfParsing.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/PdfParsing.cpp b/src/PdfParsing.cpp
index 8be90d7..dd32a54 100755
--- a/src/PdfParsing.cpp
+++ b/src/PdfParsing.cpp
@@ -791,8 +791,8 @@ void PdfParsing::drawGraphic(GfxState* state) {
   const double* ctm = state->getCTM();
   double leftX = round(ctm[4], _config.coordinatePrecision);  // ctm[4] = translateX
   double upperY = round(ctm[5], _config.coordinatePrecision);  // ctm[5] = translateY
-  double rightX = round(leftX + ctm[0], _config.coordinatePrecision);  // ctm[0] = scaleX
-  double lowerY = round(upperY + ctm[3], _config.coordinatePrecision);  // ctm[3] = scaleY
+  double rightX = round(leftX + ctm[0] + ctm[2], _config.coordinatePrecision);  // scaleX, skewX
+  double lowerY = round(upperY + ctm[1] + ctm[3], _config.coordinatePrecision);  // skewY, scaleY
 
   // Ignore the graphic if it lies outside the clip box (since graphics outside the clip box are
   // not visible). Example PDF where a graphic lies outside the clip box: 1001.5159.
-- 
2.43.0


From cb626e8e64b2271d851cb7a24b52ebca07d3b81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:30 +0000
Subject: [PATCH 18/41] fix: read embedded Type 1 fonts without accessing
 memory outside of their data

---
 src/utils/PdfFontInfoParser.cpp | 27 ++++++++++-----------------
 1 file changed, 10 insertions(+), 17 deletions(-)

diff --git a/src/utils/PdfFontInfoParser.cpp b/src/utils/PdfFontInfoParser.cpp
index 46cbeac..f20832a 100755
--- a/src/utils/PdfFontInfoParser.cpp
+++ b/src/utils/PdfFontInfoParser.cpp
@@ -272,7 +272,7 @@ void Type1FontFileParser::parseAsciiPart(Object* strObj, int length, PdfFontInfo
             istringstream lineSS(line.substr(lSquarePos, rSquarePos - lSquarePos));
             double d;
             int k = 0;
-            while (lineSS >> d) {
+            while (k < 6 && lineSS >> d) {
               fontInfo->fontMatrix[k++] = d;
             }
           }
@@ -332,9 +332,7 @@ void Type1FontFileParser::parseEncryptedPart(Object* strObj, int length,
     }
   }
 
-  int numBytes = isPfb ? length : length / 2;
-  char* bytes = new char[numBytes];
-  int b = 0;
+  string bytes;
   int c;
 
   if (isPfb) {
@@ -345,24 +343,21 @@ void Type1FontFileParser::parseEncryptedPart(Object* strObj, int length,
       for (int i = 0; i < 4; i++) {
         char c1 = _hexToChar[(start[i] >> 4) & 0x0f];
         char c2 = _hexToChar[start[i] & 0x0f];
-        bytes[b] = 16 * _charToHex[c1] + _charToHex[c2];
-        b++;
+        bytes.push_back(16 * _charToHex[c1] + _charToHex[c2]);
       }
     }
 
-    for (int i = b; i < length; i++) {
+    for (int i = bytes.size(); i < length; i++) {
       if ((c = strObj->streamGetChar()) == EOF) {
         break;
       }
       char c1 = _hexToChar[(c >> 4) & 0x0f];
       char c2 = _hexToChar[c & 0x0f];
-      bytes[b] = 16 * _charToHex[c1] + _charToHex[c2];
-      b++;
+      bytes.push_back(16 * _charToHex[c1] + _charToHex[c2]);
     }
   } else {
     for (int i = 0; i < 4; i += 2) {
-      bytes[i] = 16 * _charToHex[start[i]] + _charToHex[start[i+1]];
-      b++;
+      bytes.push_back(16 * _charToHex[start[i]] + _charToHex[start[i+1]]);
     }
     for (int i = 4; i < length; i += 2) {
       char c1;
@@ -373,14 +368,12 @@ void Type1FontFileParser::parseEncryptedPart(Object* strObj, int length,
       if ((c2 = strObj->streamGetChar()) == EOF) {
         break;
       }
-      bytes[i] = 16 * _charToHex[c1] + _charToHex[c2];
-      b++;
+      bytes.push_back(16 * _charToHex[c1] + _charToHex[c2]);
     }
   }
 
   string decrypted;
-  decrypt(bytes, b, 55665, 4, &decrypted);
-  delete[] bytes;
+  decrypt(bytes.data(), bytes.size(), 55665, 4, &decrypted);
 
   // Parse the "/lenIV" part.
   int lenIV = 4;
@@ -421,7 +414,7 @@ void Type1FontFileParser::parseEncryptedPart(Object* strObj, int length,
     string dupstring = subrs.substr(match.position() + match.length(), nnumBytes);
 
     string decryptedDupString;
-    decrypt(dupstring.c_str(), nnumBytes, 4330, lenIV, &decryptedDupString);
+    decrypt(dupstring.c_str(), dupstring.size(), 4330, lenIV, &decryptedDupString);
 
     subrsMap[index] = decryptedDupString;
   }
@@ -453,7 +446,7 @@ void Type1FontFileParser::parseEncryptedPart(Object* strObj, int length,
     string charstring = charstrings.substr(match.position() + match.length(), nnumBytes);
 
     string decryptedCharString;
-    decrypt(charstring.c_str(), nnumBytes, 4330, lenIV, &decryptedCharString);
+    decrypt(charstring.c_str(), charstring.size(), 4330, lenIV, &decryptedCharString);
 
     int leftX = numeric_limits<int>::max();
     int upperY = numeric_limits<int>::max();
-- 
2.43.0


From ebe19c0e5718104968b4354acec2a6ca236f3124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:30 +0000
Subject: [PATCH 19/41] fix: read the numbers and names in embedded Type 1
 fonts with bounded lengths

---
 src/utils/PdfFontInfoParser.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/utils/PdfFontInfoParser.cpp b/src/utils/PdfFontInfoParser.cpp
index f20832a..245eb70 100755
--- a/src/utils/PdfFontInfoParser.cpp
+++ b/src/utils/PdfFontInfoParser.cpp
@@ -382,7 +382,7 @@ void Type1FontFileParser::parseEncryptedPart(Object* strObj, int length,
     lenIVStart += 7;
     size_t lenIVEnd = decrypted.find(" ", lenIVStart);
     if (lenIVEnd != string::npos) {
-      lenIV = stoi(decrypted.substr(lenIVStart, lenIVEnd - lenIVStart));
+      istringstream(decrypted.substr(lenIVStart, lenIVEnd - lenIVStart)) >> lenIV;
     }
   }
 
@@ -401,7 +401,7 @@ void Type1FontFileParser::parseEncryptedPart(Object* strObj, int length,
   }
 
   string subrs = decrypted.substr(subrsStart, subrsEnd - subrsStart);
-  regex dupRegex("dup\\s(\\d+)\\s(\\d+)\\sRD\\s");
+  regex dupRegex("dup\\s(\\d{1,9})\\s(\\d{1,9})\\sRD\\s");
   auto dupBegin = sregex_iterator(subrs.begin(), subrs.end(), dupRegex);
   auto dupEnd = sregex_iterator();
 
@@ -434,7 +434,7 @@ void Type1FontFileParser::parseEncryptedPart(Object* strObj, int length,
 
   string charstrings = decrypted.substr(charStringsStart);
 
-  regex words_regex("\\/(\\S+)\\s+(\\d+)\\sRD\\s");
+  regex words_regex("\\/(\\S{1,127})\\s{1,9}(\\d{1,9})\\sRD\\s");
   auto words_begin = sregex_iterator(charstrings.begin(), charstrings.end(), words_regex);
   auto words_end = sregex_iterator();
 
-- 
2.43.0


From adff8257121d54d0c459e7c57d9dcf375e0c2b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:30 +0000
Subject: [PATCH 20/41] fix: ignore glyphs of embedded fonts that do not define
 a bounding box

---
 src/utils/PdfFontInfoParser.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/utils/PdfFontInfoParser.cpp b/src/utils/PdfFontInfoParser.cpp
index 245eb70..99b2df9 100755
--- a/src/utils/PdfFontInfoParser.cpp
+++ b/src/utils/PdfFontInfoParser.cpp
@@ -458,6 +458,10 @@ void Type1FontFileParser::parseEncryptedPart(Object* strObj, int length,
     vector<int> interpreterStack;
     parseCharString(decryptedCharString, subrsMap, &curX, &curY, &leftX, &upperY, &rightX, &lowerY,
         &args, &interpreterStack);
+    // Ignore the glyph if its charstring does not define a bounding box.
+    if (leftX > rightX || upperY > lowerY) {
+      continue;
+    }
     fontInfo->glyphBoundingBoxes[charName] = make_tuple(leftX, upperY, rightX, lowerY);
   }
 }
-- 
2.43.0


From bd98e387d08b9d4c3fa7a56414bc4b6a2f8a00f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:30 +0000
Subject: [PATCH 21/41] fix: interpret malformed charstrings of embedded fonts
 without crashing

---
 src/utils/PdfFontInfoParser.cpp | 41 +++++++++++++++++++++------------
 src/utils/PdfFontInfoParser.h   |  2 +-
 2 files changed, 27 insertions(+), 16 deletions(-)

diff --git a/src/utils/PdfFontInfoParser.cpp b/src/utils/PdfFontInfoParser.cpp
index 99b2df9..17ec63d 100755
--- a/src/utils/PdfFontInfoParser.cpp
+++ b/src/utils/PdfFontInfoParser.cpp
@@ -12,6 +12,7 @@
 #include <poppler/XRef.h>
 
 #include <cassert>  // assert
+#include <cstdint>  // int64_t
 #include <limits>
 #include <memory>  // std::shared_ptr
 #include <regex>
@@ -470,9 +471,17 @@ void Type1FontFileParser::parseEncryptedPart(Object* strObj, int length,
 void Type1FontFileParser::parseCharString(const string& charString,
     const unordered_map<int, string>& subrs, int* curX, int* curY,
     int* leftX, int* upperY, int* rightX, int* lowerY,
-    vector<int>* args, vector<int>* interpreterStack) const {
+    vector<int>* args, vector<int>* interpreterStack, int depth) const {
+  // Do not follow subroutines that are nested too deeply (or that call themselves).
+  if (depth > 10) {
+    return;
+  }
 
-  for (size_t t = 0; t < charString.size(); t++) {
+  size_t t = 0;
+  // Returns the next byte of the charstring, or 0 if the charstring ends too early.
+  auto nextByte = [&]() { return ++t < charString.size() ? charString[t] & 0xff : 0; };
+
+  for (; t < charString.size(); t++) {
     unsigned char byte = charString[t] & 0xff;
 
     if (byte < 32) {
@@ -588,12 +597,12 @@ void Type1FontFileParser::parseCharString(const string& charString,
             }
 
             parseCharString(subrs.at(index), subrs, curX, curY, leftX, upperY, rightX, lowerY, args,
-                interpreterStack);
+                interpreterStack, depth + 1);
           }
           break;
         case 12:  // escape
           {
-            unsigned char byte2 = charString[++t] & 0xff;
+            unsigned char byte2 = nextByte();
 
             switch (byte2) {
               case 0:  // dotsection
@@ -651,7 +660,8 @@ void Type1FontFileParser::parseCharString(const string& charString,
                   int num1 = args->back();
                   args->pop_back();
 
-                  int result = num1 / num2;  // TODO(korzen): float
+                  // TODO(korzen): float
+                  int result = num2 != 0 ? static_cast<int64_t>(num1) / num2 : 0;
 
                   args->push_back(result);
                 }
@@ -667,7 +677,7 @@ void Type1FontFileParser::parseCharString(const string& charString,
                   interpreterStack->clear();
                   switch (othersubr) {
                     case 0:
-                      {
+                      if (args->size() >= 3) {
                         int n1 = args->back();
                         args->pop_back();
                         interpreterStack->push_back(n1);
@@ -678,18 +688,19 @@ void Type1FontFileParser::parseCharString(const string& charString,
 
                         args->pop_back();
                       }
+                      break;
                     case 1:
                       break;
                     case 3:
-                      {
+                      if (args->size() >= 1) {
                         int n1 = args->back();
                         args->pop_back();
                         interpreterStack->push_back(n1);
-                        break;
                       }
+                      break;
                     default:
                       {
-                        for (int i = 0; i < numArgs; i++) {
+                        for (int i = 0; i < numArgs && !args->empty(); i++) {
                           int n1 = args->back();
                           args->pop_back();
                           interpreterStack->push_back(n1);
@@ -827,16 +838,16 @@ void Type1FontFileParser::parseCharString(const string& charString,
       if (byte <= 246) {
         args->push_back(byte - 139);
       } else if (byte >= 247 && byte <= 250) {
-        unsigned char bbyte = charString[++t] & 0xff;
+        unsigned char bbyte = nextByte();
         args->push_back((byte - 247) * 256 + bbyte + 108);
       } else if (byte >= 251 && byte <= 254) {
-        unsigned char bbyte = charString[++t] & 0xff;
+        unsigned char bbyte = nextByte();
         args->push_back(-(byte - 251) * 256 - bbyte - 108);
       } else if (byte == 255) {
-        unsigned char b1 = charString[++t] & 0xff;
-        unsigned char b2 = charString[++t] & 0xff;
-        unsigned char b3 = charString[++t] & 0xff;
-        unsigned char b4 = charString[++t] & 0xff;
+        unsigned char b1 = nextByte();
+        unsigned char b2 = nextByte();
+        unsigned char b3 = nextByte();
+        unsigned char b4 = nextByte();
         args->push_back(b1 << 24 | b2 << 16 | b3 << 8 | b4);
       }
     }
diff --git a/src/utils/PdfFontInfoParser.h b/src/utils/PdfFontInfoParser.h
index 33971db..321c9e7 100755
--- a/src/utils/PdfFontInfoParser.h
+++ b/src/utils/PdfFontInfoParser.h
@@ -114,7 +114,7 @@ class Type1FontFileParser {
   void parseCharString(const string& charString,
     const unordered_map<int, string>& subrs, int* curX, int* curY,
     int* leftX, int* upperY, int* rightX, int* lowerY, vector<int>* args,
-    vector<int>* interpreterStack) const;
+    vector<int>* interpreterStack, int depth = 0) const;
 
   /** TODO(korzen) */
   void decrypt(const char* bytes, int numBytes, int r, int n, string* resultStr) const;
-- 
2.43.0


From 14bf1593c1b02c943ce909e28fcfef230fc8059a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:32 +0000
Subject: [PATCH 22/41] fix: initialize the role of text blocks, for the case
 that no roles are predicted

---
 src/Types.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Types.h b/src/Types.h
index 3b22b70..acd36d7 100644
--- a/src/Types.h
+++ b/src/Types.h
@@ -756,7 +756,7 @@ class PdfTextBlock : public PdfTextElement {
   const PdfPageSegment* segment = nullptr;
 
   // The semantic role of this text block.
-  SemanticRole role;
+  SemanticRole role = SemanticRole::OTHER;
 
   // A boolean flag indicating whether or not the text lines in this text block are centered.
   bool isLinesCentered = false;
-- 
2.43.0


From b8aa8b512ccc4cc6afca384562346cbea8711317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:32 +0000
Subject: [PATCH 23/41] fix: name fonts without a name after their id, so that
 the output is the same on each run

---
 src/PdfParsing.cpp              | 8 ++++----
 src/utils/PdfFontInfoParser.cpp | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/PdfParsing.cpp b/src/PdfParsing.cpp
index dd32a54..99770d8 100755
--- a/src/PdfParsing.cpp
+++ b/src/PdfParsing.cpp
@@ -134,10 +134,10 @@ void PdfParsing::updateFont(GfxState* state) {
   }
 
   // Get the font name. In some cases (e.g., if the type of the font is "type-3"), the gfxFont
-  // may not provide a font name. In this case, use the pointer address of the font instead.
-  stringstream gfxFontAddress;
-  gfxFontAddress << gfxFont;
-  string fontName = gfxFontAddress.str();
+  // may not provide a font name. In this case, use the id of the font instead.
+  stringstream gfxFontId;
+  gfxFontId << "font" << gfxFont->getID()->num << "_" << gfxFont->getID()->gen;
+  string fontName = gfxFontId.str();
   const optional<string> gooFontName = gfxFont->getName();
   if (gooFontName) {
     fontName = move(*gooFontName);
diff --git a/src/utils/PdfFontInfoParser.cpp b/src/utils/PdfFontInfoParser.cpp
index 17ec63d..a26524e 100755
--- a/src/utils/PdfFontInfoParser.cpp
+++ b/src/utils/PdfFontInfoParser.cpp
@@ -62,10 +62,10 @@ PdfFontInfo* PdfFontInfoParser::parse(
   }
 
   // Get the font name. In some cases (e.g., if the type of the font is "type-3"), the gfxFont
-  // may not provide a font name. So use the pointer address of the font as default font name.
-  stringstream gfxFontAddress;
-  gfxFontAddress << gfxFont;
-  string fontName = gfxFontAddress.str();
+  // may not provide a font name. So use the id of the font as default font name.
+  stringstream gfxFontId;
+  gfxFontId << "font" << gfxFont->getID()->num << "_" << gfxFont->getID()->gen;
+  string fontName = gfxFontId.str();
 
   // If the font provide a font name, take this.
   const std::optional<string> gooFontName = gfxFont->getName();
-- 
2.43.0


From 0416112ca1c17fa38c53e2be9dc43334055c5e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:01 +0000
Subject: [PATCH 24/41] fix: compare offsets and line distances as doubles, not
 truncated to integers

---
 src/TextBlocksDetection.cpp            | 3 ++-
 src/utils/TextBlocksDetectionUtils.cpp | 9 +++++----
 src/utils/TextLinesDetectionUtils.cpp  | 3 ++-
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/TextBlocksDetection.cpp b/src/TextBlocksDetection.cpp
index 50e40ce..699e03e 100755
--- a/src/TextBlocksDetection.cpp
+++ b/src/TextBlocksDetection.cpp
@@ -7,6 +7,7 @@
  */
 
 #include <cassert>  // assert
+#include <cmath>  // fabs
 #include <string>
 #include <utility>  // std::pair
 #include <vector>
@@ -807,7 +808,7 @@ Trool TextBlocksDetection::startsBlock_indent(const PdfTextLine* line) const {
   bool isCurrIndented = between(currLeftMargin, indentTolLow, indentTolHigh);
   bool isPrevMoreIndented = larger(prevLeftMargin, indentTolHigh);
   bool isCurrMoreIndented = larger(currLeftMargin, indentTolHigh);
-  double absLeftXOffset = abs(computeLeftXOffset(prevLine, line));
+  double absLeftXOffset = fabs(computeLeftXOffset(prevLine, line));
   bool hasPrevLineCapacity = _utils->computeHasPrevLineCapacity(line->prevLine, line);
 
   _log->debug(p) << _q << BLUE <<  "Is the line indented?" << OFF << endl;
diff --git a/src/utils/TextBlocksDetectionUtils.cpp b/src/utils/TextBlocksDetectionUtils.cpp
index 1672e26..8bbd78c 100755
--- a/src/utils/TextBlocksDetectionUtils.cpp
+++ b/src/utils/TextBlocksDetectionUtils.cpp
@@ -7,6 +7,7 @@
  */
 
 #include <cassert>  // assert
+#include <cmath>  // fabs
 #include <limits>  // std::numeric_limits
 #include <regex>
 #include <string>
@@ -86,8 +87,8 @@ bool TextBlocksDetectionUtils::computeIsCentered(const PdfTextLine* line1,
 
   // The lines are not centered when the leftX-offset and the rightX-offset between the lines
   // are not equal.
-  double absLeftXOffset = abs(computeLeftXOffset(line1, line2));
-  double absRightXOffset = abs(computeRightXOffset(line1, line2));
+  double absLeftXOffset = fabs(computeLeftXOffset(line1, line2));
+  double absRightXOffset = fabs(computeRightXOffset(line1, line2));
 
   double xOffsetTolerance = _config->getCenteringXOffsetEqualTolerance(line1);
   if (!equal(absLeftXOffset, absRightXOffset, xOffsetTolerance)) {
@@ -142,8 +143,8 @@ bool TextBlocksDetectionUtils::computeIsTextLinesCentered(const PdfTextBlock* bl
     bool isFormula = prevLineContainsFormula || currLineContainsFormula;
 
     // Check if the line has a leftX offset (or rightX offset) larger than the threshold.
-    double absLeftXOffset = abs(computeLeftXOffset(prevLine, currLine));
-    double absRightXOffset = abs(computeRightXOffset(prevLine, currLine));
+    double absLeftXOffset = fabs(computeLeftXOffset(prevLine, currLine));
+    double absRightXOffset = fabs(computeRightXOffset(prevLine, currLine));
     double xOffsetThreshold = _config->getCenteringXOffsetEqualTolerance(currLine);
     bool isLargeLeftXOffset = larger(absLeftXOffset, xOffsetThreshold);
     bool isLargeRightXOffset = larger(absRightXOffset, xOffsetThreshold);
diff --git a/src/utils/TextLinesDetectionUtils.cpp b/src/utils/TextLinesDetectionUtils.cpp
index af16c98..570581f 100755
--- a/src/utils/TextLinesDetectionUtils.cpp
+++ b/src/utils/TextLinesDetectionUtils.cpp
@@ -7,6 +7,7 @@
  */
 
 #include <cassert>  // assert
+#include <cmath>  // fabs
 #include <stack>
 #include <tuple>
 #include <utility>  // std::pair
@@ -68,7 +69,7 @@ void TextLinesDetectionUtils::computeTextLineHierarchy(const PdfPage* page) cons
         bool hasSameRotation = prevLine->pos->rotation == line->pos->rotation;
         bool hasSameWMode = prevLine->pos->wMode == line->pos->wMode;
         if (hasSameRotation && hasSameWMode) {
-          double absLineDistance = abs(computeVerticalGap(prevLine, line));
+          double absLineDistance = fabs(computeVerticalGap(prevLine, line));
           if (larger(absLineDistance, _config->lineHierarchyMaxLineDist,
               _config->coordsEqualTolerance)) {
             lineStack = stack<PdfTextLine*>();
-- 
2.43.0


From 3027c9a33db61d4fba3a6e4f827595c3930a4adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:51 +0000
Subject: [PATCH 25/41] fix: examine wide characters as such on computing the
 features of text blocks

---
 src/SemanticRolesPrediction.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/SemanticRolesPrediction.cpp b/src/SemanticRolesPrediction.cpp
index 43ed1f9..c9816a5 100755
--- a/src/SemanticRolesPrediction.cpp
+++ b/src/SemanticRolesPrediction.cpp
@@ -286,7 +286,7 @@ cppflow::tensor SemanticRolesPrediction::createLayoutInputTensor(const PdfDocume
           numUppercasedChars += 1;
         }
 
-        if (static_cast<unsigned char>(wBlockText[i]) > 127) {
+        if (wBlockText[i] > 127) {
           numNonAsciiChars += 1;
         }
 
@@ -339,7 +339,7 @@ cppflow::tensor SemanticRolesPrediction::createLayoutInputTensor(const PdfDocume
           // Convert the block text to a wstring, to correctly handle umlauts etc.
           wstring wWordText = stringConverter.from_bytes(word->text);
 
-          if (wWordText.length() > 0 && isupper(wWordText[0])) {
+          if (wWordText.length() > 0 && iswupper(wWordText[0])) {
             numUppercasedWords += 1;
           }
           numWords++;
-- 
2.43.0


From 7a9729ceec0777a259e876cd88c23daff3e5654b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:51 +0000
Subject: [PATCH 26/41] fix: read the last line of vocabulary files, and stop
 on read errors

---
 src/SemanticRolesPrediction.cpp | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/src/SemanticRolesPrediction.cpp b/src/SemanticRolesPrediction.cpp
index c9816a5..c008a65 100755
--- a/src/SemanticRolesPrediction.cpp
+++ b/src/SemanticRolesPrediction.cpp
@@ -87,12 +87,7 @@ void SemanticRolesPrediction::readModel() {
 
   // Read the vocabulary line by line, where each line is of form <token>TAB<id>.
   wstring wline;
-  while (true) {
-    std::getline(bpeVocabFile, wline);
-
-    // Abort if the end of file was reached.
-    if (bpeVocabFile.eof()) { break; }
-
+  while (std::getline(bpeVocabFile, wline)) {
     // Split the line "<token>TAB<id>" into "<token>" and "<id>".
     size_t posTab = wline.find(L"\t");
     if (posTab == string::npos) { continue; }
@@ -109,11 +104,7 @@ void SemanticRolesPrediction::readModel() {
     throw invalid_argument("Could not load vocab file \"" + rolesVocabFilePath + "\"");
   }
   string line;
-  while (true) {
-    std::getline(vocabFile, line);
-    if (vocabFile.eof()) {
-      break;
-    }
+  while (std::getline(vocabFile, line)) {
     size_t posTab = line.find("\t");
     if (posTab == string::npos) { continue; }
 
-- 
2.43.0


From 2ba2c099d333faf075675e8b5452811cb8a01cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:28 +0000
Subject: [PATCH 27/41] fix: write the thumbs symbols as one character instead
 of another one followed by a letter

---
 src/utils/CharMap.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/utils/CharMap.h b/src/utils/CharMap.h
index bf6502d..a509a93 100755
--- a/src/utils/CharMap.h
+++ b/src/utils/CharMap.h
@@ -149,10 +149,10 @@ const unordered_map<string, pair<unsigned int, string>> charMap = {
   { "slashbigg", make_pair(0x002F, "\u002F") },
   { "summationdisplay", make_pair(0x2211, "\u2211") },
   { "summationtext", make_pair(0x2211, "\u2211") },
-  { "thumbs_down", make_pair(0x1F44E, "\u1F44E") },
-  { "thumbs_down_alt", make_pair(0x1F44E, "\u1F44E") },
-  { "thumbs_up", make_pair(0x1F44D, "\u1F44D") },
-  { "thumbs_up_alt", make_pair(0x1F44D, "\u1F44D") },
+  { "thumbs_down", make_pair(0x1F44E, "\U0001F44E") },
+  { "thumbs_down_alt", make_pair(0x1F44E, "\U0001F44E") },
+  { "thumbs_up", make_pair(0x1F44D, "\U0001F44D") },
+  { "thumbs_up_alt", make_pair(0x1F44D, "\U0001F44D") },
   { "tildewide", make_pair(0x02DC, "\u02DC") },
   { "tildewider", make_pair(0x02DC, "\u02DC") },
   { "tildewidest", make_pair(0x02DC, "\u02DC") },
-- 
2.43.0


From ead96c948721018ae9df9b4a2e1fff474c21e304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:45 +0000
Subject: [PATCH 28/41] fix: extract also the shapes that are filled by the
 even-odd rule

---
 src/PdfParsing.cpp | 5 +++++
 src/PdfParsing.h   | 9 +++++++++
 2 files changed, 14 insertions(+)

diff --git a/src/PdfParsing.cpp b/src/PdfParsing.cpp
index 99770d8..df20d73 100755
--- a/src/PdfParsing.cpp
+++ b/src/PdfParsing.cpp
@@ -743,6 +743,11 @@ void PdfParsing::fill(GfxState* state) {
   stroke(state);
 }
 
+// _________________________________________________________________________________________________
+void PdfParsing::eoFill(GfxState* state) {
+  fill(state);
+}
+
 // _________________________________________________________________________________________________
 void PdfParsing::drawImageMask(GfxState* state, Object* ref, Stream* str, int width, int height,
     bool invert, bool interpolate, bool inlineImg) {
diff --git a/src/PdfParsing.h b/src/PdfParsing.h
index 2f6a0e8..1e22b38 100755
--- a/src/PdfParsing.h
+++ b/src/PdfParsing.h
@@ -189,6 +189,15 @@ class PdfParsing : public OutputDev {
    */
   void fill(GfxState* state) override;
 
+  /**
+   * This method handles the event "fill a path by the even-odd rule" in the same way as the event
+   * "fill a path", since the rule does not affect the position of the path.
+   *
+   * @param state
+   *   The current graphics state.
+   */
+  void eoFill(GfxState* state) override;
+
   /**
    * This method handles the event "draw an image mask" by invoking the `drawGraphic(state)` method
    * below. See the comment given for this method for more information.
-- 
2.43.0


From 9b78f7706fbc06bb9f21240387c0855410767343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:07 +0000
Subject: [PATCH 29/41] fix: compare footnote label characters as a whole, not
 by their first byte

---
 src/utils/TextBlocksDetectionUtils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/TextBlocksDetectionUtils.cpp b/src/utils/TextBlocksDetectionUtils.cpp
index 8bbd78c..d98d29e 100755
--- a/src/utils/TextBlocksDetectionUtils.cpp
+++ b/src/utils/TextBlocksDetectionUtils.cpp
@@ -555,7 +555,7 @@ void TextBlocksDetectionUtils::computePotentialFootnoteLabels(const PdfTextLine*
 
       // The character is part of a potential footnote label when it occurs in our alphabet we
       // defined to identify special (= non-alphanumerical) footnote labels.
-      bool isLabel = _config->specialFootnoteLabelsAlphabet.find(ch->text[0]) != string::npos;
+      bool isLabel = _config->specialFootnoteLabelsAlphabet.find(ch->text) != string::npos;
 
       // The character is also a potential footnote label when it is a superscripted alphanumerical.
       if (ch->isSuperscript && isalnum(ch->text[0])) {
-- 
2.43.0


From 56b2f217e9907af36b49caa360cf3dd146138e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:07 +0000
Subject: [PATCH 30/41] fix: print a message when the text cannot be written to
 the standard output

---
 src/serializers/Serializer.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/serializers/Serializer.cpp b/src/serializers/Serializer.cpp
index 6af05b8..aacd0a5 100644
--- a/src/serializers/Serializer.cpp
+++ b/src/serializers/Serializer.cpp
@@ -44,7 +44,11 @@ bool Serializer::serialize(
   if (targetFilePath.size() == 1 && targetFilePath[0] == '-') {
     serializeToStream(doc, roles, types, cout);
     cout.flush();
-    return cout.good();
+    if (!cout.good()) {
+      cerr << "Could not write to the standard output." << endl;
+      return false;
+    }
+    return true;
   }
 
   // Try to create all intermediate directories if the parent directory does not exist.
-- 
2.43.0


From 39d8c61196eb876ceb34e5a6daaa9310ab7b655a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:42 +0000
Subject: [PATCH 31/41] fix: report errors that occur on writing the
 visualization

---
 src/PdfDocumentVisualization.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/PdfDocumentVisualization.cpp b/src/PdfDocumentVisualization.cpp
index f18a176..924b0eb 100755
--- a/src/PdfDocumentVisualization.cpp
+++ b/src/PdfDocumentVisualization.cpp
@@ -12,8 +12,10 @@
 #include <poppler/PDFDoc.h>
 #include <poppler/PDFDocEncoding.h>
 #include <poppler/PDFDocFactory.h>
+#include <poppler/Stream.h>
 
 #include <cmath>  // fabs
+#include <cstdio>  // fopen, fclose, ferror
 #include <memory>  // std::unique_ptr
 #include <string>
 #include <utility>  // std::move
@@ -253,8 +255,14 @@ void PdfDocumentVisualization::visualizeReadingOrderCuts(const vector<Cut*>& cut
 
 // _________________________________________________________________________________________________
 bool PdfDocumentVisualization::save(const string& targetPath) const {
-  GooString gooTargetPath(targetPath);
-  return _pdfDoc->saveAs(gooTargetPath) == errNone;
+  // NOTE: PDFDoc::saveAs(path) does not report errors that occur on writing the file.
+  FILE* file = fopen(targetPath.c_str(), "wb");
+  if (!file) {
+    return false;
+  }
+  FileOutStream stream(file, 0);
+  bool ok = _pdfDoc->saveAs(&stream) == errNone && !ferror(file);
+  return fclose(file) == 0 && ok;
 }
 
 // =================================================================================================
-- 
2.43.0


From 1f678543686b715bf49d6e0a76032e98b1f43145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:53 +0000
Subject: [PATCH 32/41] fix: place the marks of the visualization right on
 rotated pages and pages with another origin

---
 src/PdfDocumentVisualization.cpp | 71 +++++++++++++++++++++-----------
 src/PdfDocumentVisualization.h   | 19 +++++++++
 2 files changed, 66 insertions(+), 24 deletions(-)

diff --git a/src/PdfDocumentVisualization.cpp b/src/PdfDocumentVisualization.cpp
index 924b0eb..8f9775c 100755
--- a/src/PdfDocumentVisualization.cpp
+++ b/src/PdfDocumentVisualization.cpp
@@ -18,7 +18,7 @@
 #include <cstdio>  // fopen, fclose, ferror
 #include <memory>  // std::unique_ptr
 #include <string>
-#include <utility>  // std::move
+#include <utility>  // std::move, std::swap
 #include <vector>
 
 #include "./Config.h"
@@ -31,6 +31,7 @@
 using std::make_unique;
 using std::move;
 using std::string;
+using std::swap;
 using std::to_string;
 using std::unique_ptr;
 using std::vector;
@@ -360,9 +361,10 @@ void PdfDocumentVisualization::drawPageSegmentBoundingBoxes(
       Page* pdfPage = _pdfDoc->getPage(segment->pos->pageNum);
       Gfx* gfx = _gfxs[segment->pos->pageNum];
       double leftX = block->pos->leftX;
-      double upperY = pdfPage->getMediaHeight() - block->pos->lowerY;
+      double upperY = block->pos->lowerY;
       double rightX = block->pos->rightX;
-      double lowerY = pdfPage->getMediaHeight() - block->pos->upperY;
+      double lowerY = block->pos->upperY;
+      convertToUserSpace(pdfPage, &leftX, &upperY, &rightX, &lowerY);
       // Vertical/horizontal lines can have a width/height of zero, in which case they are not
       // visible in the visualization. So ensure a minimal width/height of 1.
       if (smaller(fabs(leftX - rightX), 1)) { rightX += 1; }
@@ -389,12 +391,13 @@ void PdfDocumentVisualization::drawBoundingBox(const PdfElement* element, const
   Page* pdfPage = _pdfDoc->getPage(element->pos->pageNum);
   Gfx* gfx = _gfxs[element->pos->pageNum];
 
-  // Define the coordinates of the bounding box to draw. Make the y-coordinates relatively to the
-  // lower left of the page.
+  // Define the coordinates of the bounding box to draw. Make them relative to the coordinate system
+  // of the page.
   double leftX = element->pos->leftX;
-  double upperY = pdfPage->getMediaHeight() - element->pos->lowerY;
+  double upperY = element->pos->lowerY;
   double rightX = element->pos->rightX;
-  double lowerY = pdfPage->getMediaHeight() - element->pos->upperY;
+  double lowerY = element->pos->upperY;
+  convertToUserSpace(pdfPage, &leftX, &upperY, &rightX, &lowerY);
 
   // Vertical/horizontal lines can have a width/height of zero, in which case they are not
   // visible in the visualization. So ensure a minimal width/height of 1.
@@ -422,10 +425,11 @@ void PdfDocumentVisualization::drawTextBlockSemanticRoles(const vector<PdfTextBl
     Page* pdfPage = _pdfDoc->getPage(block->pos->pageNum);
     Gfx* gfx = _gfxs[block->pos->pageNum];
 
-    // Define the position of the semantic role. Make the lowerY relatively to the lower left of
-    // the page.
+    // Define the position of the semantic role. Make it relative to the coordinate system of the
+    // page.
     double leftX = block->pos->leftX;
-    double lowerY = pdfPage->getMediaHeight() - block->pos->upperY;
+    double lowerY = block->pos->upperY;
+    convertToUserSpace(pdfPage, &leftX, &lowerY);
     PDFRectangle rect(leftX, lowerY, leftX + 100, lowerY + 7);
 
     // Define the font appearance of the semantic role.
@@ -462,18 +466,12 @@ void PdfDocumentVisualization::drawReadingOrder(const vector<PdfTextBlock*>& blo
     Gfx* gfx = _gfxs[currBlock->pos->pageNum];
 
     // Compute the coordinates of the midpoints of the previous and current text block.
-    double prevMinX = prevBlock->pos->leftX;
-    double prevMaxX = prevBlock->pos->rightX;
-    double prevMinY = pdfPage->getMediaHeight() - prevBlock->pos->lowerY;
-    double prevMaxY = pdfPage->getMediaHeight() - prevBlock->pos->upperY;
-    double prevMidX = prevBlock->pos->leftX + ((prevMaxX - prevMinX) / 2.0);
-    double prevMidY = prevMinY + ((prevMaxY - prevMinY) / 2.0);
-    double currMinX = currBlock->pos->leftX;
-    double currMaxX = currBlock->pos->rightX;
-    double currMinY = pdfPage->getMediaHeight() - currBlock->pos->lowerY;
-    double currMaxY = pdfPage->getMediaHeight() - currBlock->pos->upperY;
-    double currMidX = currBlock->pos->leftX + ((currMaxX - currMinX) / 2.0);
-    double currMidY = currMinY + ((currMaxY - currMinY) / 2.0);
+    double prevMidX = (prevBlock->pos->leftX + prevBlock->pos->rightX) / 2.0;
+    double prevMidY = (prevBlock->pos->upperY + prevBlock->pos->lowerY) / 2.0;
+    double currMidX = (currBlock->pos->leftX + currBlock->pos->rightX) / 2.0;
+    double currMidY = (currBlock->pos->upperY + currBlock->pos->lowerY) / 2.0;
+    convertToUserSpace(pdfPage, &prevMidX, &prevMidY);
+    convertToUserSpace(pdfPage, &currMidX, &currMidY);
 
     // Define the position of the reading order line.
     PDFRectangle lineRect(prevMidX, prevMidY, currMidX, currMidY);
@@ -565,9 +563,11 @@ void PdfDocumentVisualization::drawCuts(const vector<Cut*>& cuts, const ColorSch
     Gfx* gfx = _gfxs[cut->pageNum];
 
     double x1 = cut->x1;
-    double y1 = pdfPage->getMediaHeight() - cut->y1;  // make it relative to the lower left.
+    double y1 = cut->y1;
     double x2 = cut->x2;
-    double y2 = pdfPage->getMediaHeight() - cut->y2;  // make it relative to the lower left.
+    double y2 = cut->y2;
+    convertToUserSpace(pdfPage, &x1, &y1);  // make it relative to the page's coordinate system.
+    convertToUserSpace(pdfPage, &x2, &y2);
 
     // ==========
     // Draw a line representing the cut.
@@ -673,6 +673,29 @@ void PdfDocumentVisualization::drawCuts(const vector<Cut*>& cuts, const ColorSch
   }
 }
 
+// _________________________________________________________________________________________________
+void PdfDocumentVisualization::convertToUserSpace(const Page* page, double* x, double* y) const {
+  // NOTE: The extracted positions are relative to the upper left of the rotated page.
+  const PDFRectangle* box = page->getMediaBox();
+  const double dx = *x;
+  const double dy = *y;
+  switch (page->getRotate()) {
+    case 90: *x = box->x1 + dy; *y = box->y1 + dx; break;
+    case 180: *x = box->x2 - dx; *y = box->y1 + dy; break;
+    case 270: *x = box->x2 - dy; *y = box->y2 - dx; break;
+    default: *x = box->x1 + dx; *y = box->y2 - dy; break;
+  }
+}
+
+// _________________________________________________________________________________________________
+void PdfDocumentVisualization::convertToUserSpace(const Page* page, double* minX, double* minY,
+    double* maxX, double* maxY) const {
+  convertToUserSpace(page, minX, minY);
+  convertToUserSpace(page, maxX, maxY);
+  if (*minX > *maxX) { swap(*minX, *maxX); }
+  if (*minY > *maxY) { swap(*minY, *maxY); }
+}
+
 // _________________________________________________________________________________________________
 string PdfDocumentVisualization::convertToUtf16(const string& str) const {
   int length = 2 + 2 * str.length();
diff --git a/src/PdfDocumentVisualization.h b/src/PdfDocumentVisualization.h
index 3950e56..d34f17b 100755
--- a/src/PdfDocumentVisualization.h
+++ b/src/PdfDocumentVisualization.h
@@ -351,6 +351,25 @@ class PdfDocumentVisualization {
    */
   void drawCuts(const vector<Cut*>& cuts, const ColorScheme& cs) const;
 
+  /**
+   * This method converts a point given by its position on the (rotated) page as it is displayed,
+   * with the origin in the upper left, to the coordinate system of the given page.
+   *
+   * @param page
+   *   The page.
+   * @param x
+   *   The x-coordinate of the point to convert.
+   * @param y
+   *   The y-coordinate of the point to convert.
+   */
+  void convertToUserSpace(const Page* page, double* x, double* y) const;
+
+  /**
+   * This method converts the bounding box given by two opposite corners as described above.
+   */
+  void convertToUserSpace(const Page* page, double* minX, double* minY, double* maxX,
+      double* maxY) const;
+
   /**
    * This method converts the given string to an UTF-16 string, which is required so that a string
    * of an AnnotText or AnnotFreeText is drawn correctly to the PDF.
-- 
2.43.0


From 26a0614dd39a083e25166ad13ac2140753452465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:55 +0000
Subject: [PATCH 33/41] fix: reject unknown values of the option --verbosity

---
 src/pdftotext++.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/pdftotext++.cpp b/src/pdftotext++.cpp
index 3581da2..0de5fe5 100755
--- a/src/pdftotext++.cpp
+++ b/src/pdftotext++.cpp
@@ -365,7 +365,14 @@ int main(int argc, char* argv[]) {
     )
     (
       "verbosity",
-      value<string>(&verbosity),
+      value<string>(&verbosity)->notifier([](const string& value) {
+        // Accept only the values that are mapped to a log level below.
+        static const unordered_set<string> valid = { "trace", "TRACE", "debug", "DEBUG", "info",
+          "INFO", "warn", "WARN", "error", "ERROR" };
+        if (valid.count(value) == 0) {
+          throw boost::program_options::invalid_option_value(value);
+        }
+      }),
       "Specify the verbosity. Valid values are: trace, debug, info, warn, error. "
       "Logging messages with a level lower than the specified value will be not printed to the "
       "console. Default: error."  // TODO(korzen): Specify the default value.
-- 
2.43.0


From a76691a474794b9e018397650162e2d25bf0bd7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:25 +0000
Subject: [PATCH 34/41] fix: do not crash on printing the running times when
 the locale is not available

---
 src/pdftotext++.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/pdftotext++.cpp b/src/pdftotext++.cpp
index 0de5fe5..3a2c037 100755
--- a/src/pdftotext++.cpp
+++ b/src/pdftotext++.cpp
@@ -13,6 +13,7 @@
 #include <iomanip>   // std::setw, std::setprecision
 #include <iostream>  // std::cout
 #include <locale>    // imbue
+#include <stdexcept>  // std::runtime_error
 #include <string>
 #include <unordered_set>
 #include <vector>
@@ -35,6 +36,7 @@ using std::exception;
 using std::fixed;
 using std::invalid_argument;
 using std::locale;
+using std::runtime_error;
 using std::setprecision;
 using std::setw;
 using std::string;
@@ -776,7 +778,11 @@ int main(int argc, char* argv[]) {
   // Print the running times needed by the different pipeline steps, if requested by the user.
   if (printRunningTimes) {
     // Print the values with thousands separator.
-    cout.imbue(locale(""));
+    try {
+      cout.imbue(locale(""));
+    } catch (const runtime_error& re) {
+      // The locale specified by the environment is not available on this system; keep the default.
+    }
     // Print the values with a precision of one decimal point.
     cout << fixed;
     cout << setprecision(1);
-- 
2.43.0


From 61a63209b917d53a6a35a08f3998ef3834dd65b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:45 +0000
Subject: [PATCH 35/41] fix: map the weight given by a font descriptor to the
 scale from 100 to 900

---
 src/utils/PdfFontInfoParser.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utils/PdfFontInfoParser.cpp b/src/utils/PdfFontInfoParser.cpp
index a26524e..7645362 100755
--- a/src/utils/PdfFontInfoParser.cpp
+++ b/src/utils/PdfFontInfoParser.cpp
@@ -133,7 +133,8 @@ PdfFontInfo* PdfFontInfoParser::parse(
   //     attribute). It can also contain the full name of the font (which is an extended version of
   //     the above font name) which can contain the word "Bold". This is checked in a later step,
   //     on reading the embedded font file.
-  fontInfo->weight = gfxFont->getWeight() > 0 ? gfxFont->getWeight() : fontInfo->weight;
+  // NOTE: Poppler numbers the weights 100, 200, ..., 900 by 1, 2, ..., 9.
+  fontInfo->weight = gfxFont->getWeight() > 0 ? gfxFont->getWeight() * 100 : fontInfo->weight;
   fontInfo->weight = (fontFlags & fontBold) ? 700 : fontInfo->weight;
   fontInfo->weight = fontNameLower.find("bold") != string::npos ? 700 : fontInfo->weight;
   fontInfo->weight = fontNameLower.find("black") != string::npos ? 800 : fontInfo->weight;
-- 
2.43.0


From b4b10ec48b6ee10a16ac4861dfc6648827e3f752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:45 +0000
Subject: [PATCH 36/41] fix: read the italic angle of embedded fonts
 independent of the line endings and the number format

---
 src/utils/PdfFontInfoParser.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/utils/PdfFontInfoParser.cpp b/src/utils/PdfFontInfoParser.cpp
index 7645362..6a59fb7 100755
--- a/src/utils/PdfFontInfoParser.cpp
+++ b/src/utils/PdfFontInfoParser.cpp
@@ -252,7 +252,8 @@ void Type1FontFileParser::parseAsciiPart(Object* strObj, int length, PdfFontInfo
   string asciiPartStr;
   int c;
   for (int i = 0; i < length && (c = strObj->streamGetChar()) != EOF; i++) {
-    asciiPartStr.push_back(c);
+    // NOTE: The lines can also end with "\r" or "\r\n".
+    asciiPartStr.push_back(c == '\r' ? '\n' : c);
   }
 
   // Parse the ASCII part line by line.
@@ -286,7 +287,9 @@ void Type1FontFileParser::parseAsciiPart(Object* strObj, int length, PdfFontInfo
     // A value != 0 means that the font is an italic font.
     if (!italicAngleFound) {
       if (line.starts_with("/ItalicAngle")) {
-        fontInfo->isItalic |= (line != "/ItalicAngle 0 def");
+        double italicAngle = 0;
+        istringstream(line.substr(12)) >> italicAngle;
+        fontInfo->isItalic |= italicAngle != 0;
         italicAngleFound = true;
       }
     }
-- 
2.43.0


From 0c1dbf8acbb50a944cab5f1e7fc32ab46d58e446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:45 +0000
Subject: [PATCH 37/41] fix: do not cut off the subroutines of embedded fonts
 at the bytes 'ND'

---
 src/utils/PdfFontInfoParser.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utils/PdfFontInfoParser.cpp b/src/utils/PdfFontInfoParser.cpp
index 6a59fb7..d935edf 100755
--- a/src/utils/PdfFontInfoParser.cpp
+++ b/src/utils/PdfFontInfoParser.cpp
@@ -399,7 +399,8 @@ void Type1FontFileParser::parseEncryptedPart(Object* strObj, int length,
   }
   subrsStart += 6;
 
-  size_t subrsEnd = decrypted.find("ND", subrsStart);
+  // NOTE: Don't search for the final "ND", since the (encrypted) subroutines can contain these bytes.
+  size_t subrsEnd = decrypted.find("/CharStrings", subrsStart);
   if (subrsEnd == string::npos) {
     // TODO(korzen): Print warning.
     return;
-- 
2.43.0


From 44240ed310cf2a5fb3edb7ac159f0fef72302fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:41 +0000
Subject: [PATCH 38/41] fix: read hex-encoded font programs with uppercase
 digits and whitespace

---
 src/utils/PdfFontInfoParser.cpp | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/utils/PdfFontInfoParser.cpp b/src/utils/PdfFontInfoParser.cpp
index d935edf..1e1d5ad 100755
--- a/src/utils/PdfFontInfoParser.cpp
+++ b/src/utils/PdfFontInfoParser.cpp
@@ -12,6 +12,7 @@
 #include <poppler/XRef.h>
 
 #include <cassert>  // assert
+#include <cctype>  // isspace, tolower
 #include <cstdint>  // int64_t
 #include <limits>
 #include <memory>  // std::shared_ptr
@@ -362,17 +363,18 @@ void Type1FontFileParser::parseEncryptedPart(Object* strObj, int length,
     }
   } else {
     for (int i = 0; i < 4; i += 2) {
-      bytes.push_back(16 * _charToHex[start[i]] + _charToHex[start[i+1]]);
+      bytes.push_back(16 * _charToHex[tolower(start[i])] + _charToHex[tolower(start[i+1])]);
     }
-    for (int i = 4; i < length; i += 2) {
-      char c1;
-      if ((c1 = strObj->streamGetChar()) == EOF) {
-        break;
-      }
-      char c2;
-      if ((c2 = strObj->streamGetChar()) == EOF) {
-        break;
-      }
+    int i = 4;
+    // Returns the next hex digit, or EOF. Whitespace between the digits is ignored.
+    auto nextDigit = [&]() {
+      int c = EOF;
+      while (i++ < length && (c = strObj->streamGetChar()) != EOF && isspace(c)) {}
+      return i > length ? EOF : tolower(c);
+    };
+    int c1;
+    int c2;
+    while ((c1 = nextDigit()) != EOF && (c2 = nextDigit()) != EOF) {
       bytes.push_back(16 * _charToHex[c1] + _charToHex[c2]);
     }
   }
-- 
2.43.0


From 3d77462e44496ad920283b61a64298c2513377d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:18 +0000
Subject: [PATCH 39/41] fix: detect the rotation of type 3 glyphs whose font
 matrix has small entries

---
 src/PdfParsing.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/PdfParsing.cpp b/src/PdfParsing.cpp
index df20d73..183692f 100755
--- a/src/PdfParsing.cpp
+++ b/src/PdfParsing.cpp
@@ -268,10 +268,11 @@ void PdfParsing::drawChar(GfxState* state, double x, double y, double dx, double
     m[2] = m2[2];
     m[3] = m2[3];
   }
-  if (larger(fabs(m[0] * m[3]), fabs(m[1] * m[2]))) {
-    ch->pos->rotation = (larger(m[0], 0) || smaller(m[3], 0)) ? 0 : 2;
+  // NOTE: Compare exactly, since the entries are tiny when the font matrix scales the glyphs down.
+  if (fabs(m[0] * m[3]) > fabs(m[1] * m[2])) {
+    ch->pos->rotation = (m[0] > 0 || m[3] < 0) ? 0 : 2;
   } else {
-    ch->pos->rotation = (larger(m[2], 0)) ? 1 : 3;
+    ch->pos->rotation = (m[2] > 0) ? 1 : 3;
   }
   // In vertical writing mode, the lines are effectively rotated by 90 degrees.
   if (gfxFont && gfxFont->getWMode()) {
-- 
2.43.0


From f0a4c053340c4f5badf7a35a3f6326c942067cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:55 +0000
Subject: [PATCH 40/41] fix: use the widths of the glyphs of composite fonts
 with a non-identity encoding

---
 src/PdfParsing.cpp | 36 +++++++++++++++++-------------------
 1 file changed, 17 insertions(+), 19 deletions(-)

diff --git a/src/PdfParsing.cpp b/src/PdfParsing.cpp
index 183692f..0792fa5 100755
--- a/src/PdfParsing.cpp
+++ b/src/PdfParsing.cpp
@@ -324,32 +324,30 @@ void PdfParsing::drawChar(GfxState* state, double x, double y, double dx, double
   double trm[6];
   concat(paramsXtm, ctm, trm);
 
-  // Compute the text rendering matrix of the next char.
+  // Compute the displacement of the char (without the char spacing) in user space.
   auto gfxCidFont = dynamic_pointer_cast<GfxCIDFont>(state->getFont());
-  double width = 0;
+  double deltaX = 0;
+  double deltaY = 0;
   if (gfx8BitFont) {
-    width = gfx8BitFont->getWidth(c);
+    double width = gfx8BitFont->getWidth(c);
+    state->textTransformDelta(width * fontSize * horizScaling, 0, &deltaX, &deltaY);
   } else if (gfxCidFont) {
-    if (nBytes > 0) {
-      char* bytes = new char[nBytes];
-      for (int k = 0; k < nBytes; k++) {
-        bytes[k] = (c >> (8 * (nBytes - k - 1))) & 0xFF;
-      }
-      width = gfxCidFont->getWidth(bytes, nBytes);
-      delete[] bytes;
-    }
+    // NOTE: If the font is a composite font, c is the CID and not the code of the char (the two
+    // differ if the encoding of the font is not the identity). There is no method for getting the
+    // width by the CID, so use the displacement given by Poppler, which includes the char spacing.
+    bool isVertical = gfxCidFont->getWMode();
+    double space = state->getCharSpace();
+    double spaceX, spaceY;
+    state->textTransformDelta(isVertical ? 0 : space * horizScaling, isVertical ? space : 0,
+        &spaceX, &spaceY);
+    deltaX = dx - spaceX;
+    deltaY = dy - spaceY;
   }
 
-  double td[6] = { 1, 0, 0, 1, width * fontSize * horizScaling, 0 };
-  double tdXtm[6];
-  concat(td, tm, tdXtm);
-  double nextTrm[6];
-  concat(tdXtm, ctm, nextTrm);
-
   double x0 = trm[4];
   double y0 = trm[5];
-  double x1 = nextTrm[4];
-  double y1 = nextTrm[5];
+  double x1, y1;
+  state->transform(x + deltaX, y + deltaY, &x1, &y1);
   double transformedFontSize = state->getTransformedFontSize();
 
   // Compute the ascent, that is: the maximum extent of the font above the base line.
-- 
2.43.0


From 82380823288d2091e962a74729f0239230557e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:21:22 +0000
Subject: [PATCH 41/41] fix: respect the indent when wrapping the last line of
 a text

---
 src/utils/TextUtils.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/utils/TextUtils.cpp b/src/utils/TextUtils.cpp
index 86b0171..82fc0d2 100755
--- a/src/utils/TextUtils.cpp
+++ b/src/utils/TextUtils.cpp
@@ -179,8 +179,9 @@ string wrap(const string& str, unsigned int width, unsigned int indent) {
     if (lineEnd < lineStart || lineEnd > str.size()) {
       break;
     }
-    // Don't wrap if the string would be split in two parts whose accumulated width is <= width.
-    if ((lineEnd - lineStart) + (str.size() - lineEnd) <= width) {
+    // Don't wrap if the string would be split in two parts whose accumulated width (+ the length
+    // of the indent) is <= width.
+    if ((lineEnd - lineStart) + (str.size() - lineEnd) <= width - indent) {
       break;
     }
     // Append the indent and the line to the result.
-- 
2.43.0

