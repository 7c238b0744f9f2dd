From f2951506450d2d68ce965f51366853785fba632b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:52 +0000
Subject: [PATCH 01/43] fix: compare typed integer accesses and bounds of
 differing signedness by value

---
 parameter/IntegerParameterType.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/parameter/IntegerParameterType.h b/parameter/IntegerParameterType.h
index 797cd44..e5f27f8 100644
--- a/parameter/IntegerParameterType.h
+++ b/parameter/IntegerParameterType.h
@@ -72,8 +72,10 @@ private:
                         CParameterAccessContext &parameterAccessContext) const
     {
         {
-            if (userValue < static_cast<UserType>(_min) ||
-                userValue > static_cast<UserType>(_max)) {
+            // The user type and the bounds may differ in signedness: compare in a type holding both
+            const int64_t value = userValue;
+
+            if (value < _min || value > _max) {
 
                 parameterAccessContext.setError("Value out of range");
                 return false;
-- 
2.43.0


From 3aff6139cd1b748d43cbaaf758a6eb8c270f96e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:14 +0000
Subject: [PATCH 02/43] fix: keep all bits when masking a 32-bit parameter
 value

---
 parameter/ParameterType.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parameter/ParameterType.cpp b/parameter/ParameterType.cpp
index 5472f27..bd495cd 100644
--- a/parameter/ParameterType.cpp
+++ b/parameter/ParameterType.cpp
@@ -203,7 +203,7 @@ uint32_t CParameterType::makeEncodable(uint32_t uiData) const
 {
     size_t sizeInBits = getSize() * 8;
 
-    uint32_t uiMask = (1 << sizeInBits) - 1;
+    uint32_t uiMask = static_cast<uint32_t>((static_cast<uint64_t>(1) << sizeInBits) - 1);
 
     return uiData & uiMask;
 }
-- 
2.43.0


From da244da9458357f6f2dc4d1eb11de2b6499a67fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:14 +0000
Subject: [PATCH 03/43] fix: accept the raw value of a negative 32-bit
 enumeration entry

---
 parameter/EnumParameterType.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parameter/EnumParameterType.cpp b/parameter/EnumParameterType.cpp
index 468b6c6..923e2fe 100644
--- a/parameter/EnumParameterType.cpp
+++ b/parameter/EnumParameterType.cpp
@@ -98,7 +98,11 @@ bool CEnumParameterType::toBlackboard(const string &strValue, uint32_t &uiValue,
     int32_t iParsedUserValue = 0;
 
     // Try to read the user-provided string as an integer
-    if (not convertTo(strValue, iParsedUserValue)) {
+    uint32_t uiRawValue;
+    if (parameterAccessContext.valueSpaceIsRaw() and convertTo(strValue, uiRawValue)) {
+        // Raw values are the unsigned image of the stored bits
+        iParsedUserValue = static_cast<int32_t>(uiRawValue);
+    } else if (not convertTo(strValue, iParsedUserValue)) {
         // If it fails to parse as an integer, first try to convert it from
         // lexical to numerical space.
         int32_t iNumerical;
-- 
2.43.0


From 667babf14776d3110b3e7926df037b9c25b40280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:08 +0000
Subject: [PATCH 04/43] fix: pad the digits, not the prefix, of a raw
 hexadecimal float

---
 parameter/FloatingPointParameterType.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parameter/FloatingPointParameterType.cpp b/parameter/FloatingPointParameterType.cpp
index 44de9e2..5a769c2 100644
--- a/parameter/FloatingPointParameterType.cpp
+++ b/parameter/FloatingPointParameterType.cpp
@@ -212,7 +212,7 @@ bool CFloatingPointParameterType::fromBlackboard(
 
         if (parameterAccessContext.outputRawFormatIsHex()) {
 
-            ostrStream << std::showbase << std::hex << std::setw(static_cast<int>(getSize() * 2))
+            ostrStream << "0x" << std::hex << std::setw(static_cast<int>(getSize() * 2))
                        << std::setfill('0');
         }
 
-- 
2.43.0


From d5a0fca7404326f5f6f4178c0ab9b5bde75e3833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:25 +0000
Subject: [PATCH 05/43] fix: refuse bit parameter values that are not numbers

---
 parameter/BitParameterType.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/parameter/BitParameterType.cpp b/parameter/BitParameterType.cpp
index 14421f1..7d7daf7 100644
--- a/parameter/BitParameterType.cpp
+++ b/parameter/BitParameterType.cpp
@@ -29,6 +29,7 @@
  */
 #include "BitParameterType.h"
 #include "BitParameter.h"
+#include <errno.h>
 #include <stdlib.h>
 #include <sstream>
 #include "ParameterAccessContext.h"
@@ -123,7 +124,18 @@ bool CBitParameterType::toBlackboard(const string &strValue, uint64_t &uiValue,
                                      CParameterAccessContext &parameterAccessContext) const
 {
     // Get value
-    uint64_t uiConvertedValue = strtoull(strValue.c_str(), nullptr, 0);
+    const char *pcValue = strValue.c_str();
+    char *pcEnd = nullptr;
+    errno = 0;
+    uint64_t uiConvertedValue = strtoull(pcValue, &pcEnd, 0);
+
+    if (errno != 0 || strValue.empty() || pcEnd != pcValue + strValue.size() ||
+        strValue.find('-') != string::npos) {
+
+        parameterAccessContext.setError("Value '" + strValue + "' is invalid for " + getKind());
+
+        return false;
+    }
 
     if (uiConvertedValue > _uiMax) {
 
-- 
2.43.0


From d6cb55be0e37ffd281c49dc9c159218a4724682d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:45 +0000
Subject: [PATCH 06/43] fix: refuse array indexes followed by garbage

---
 parameter/ArrayParameter.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/parameter/ArrayParameter.cpp b/parameter/ArrayParameter.cpp
index 91ea448..d7d6d30 100644
--- a/parameter/ArrayParameter.cpp
+++ b/parameter/ArrayParameter.cpp
@@ -28,13 +28,14 @@
  * SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
  */
 #include "ArrayParameter.h"
-#include <sstream> // for istringstream
+#include <sstream>
 #include "Tokenizer.h"
 #include "ParameterType.h"
 #include "ParameterAccessContext.h"
 #include "ConfigurationAccessContext.h"
 #include "ParameterBlackboard.h"
 #include "Utility.h"
+#include "convert.hpp"
 #include <assert.h>
 
 #define base CParameter
@@ -210,11 +211,7 @@ bool CArrayParameter::getIndex(CPathNavigator &pathNavigator, size_t &index,
     if (pStrChildName) {
 
         // Check index is numeric
-        std::istringstream iss(*pStrChildName);
-
-        iss >> index;
-
-        if (!iss) {
+        if (!convertTo(*pStrChildName, index)) {
 
             parameterAccessContext.setError("Expected numerical expression as last item in " +
                                             pathNavigator.getCurrentPath());
-- 
2.43.0


From c1555f4fabf7fe4b88b6e32f6748994f9b2f1b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:45 +0000
Subject: [PATCH 07/43] fix: refuse to set a scalar parameter from an empty
 array

---
 parameter/ElementHandle.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parameter/ElementHandle.cpp b/parameter/ElementHandle.cpp
index ecf1bcf..453f354 100644
--- a/parameter/ElementHandle.cpp
+++ b/parameter/ElementHandle.cpp
@@ -196,6 +196,10 @@ bool ElementHandle::setAsBytes(const std::vector<uint8_t> &bytesValue, std::stri
 template <class T>
 bool ElementHandle::setAs(const T value, string &error) const
 {
+    // An empty vector has the size of a scalar: check against the actual type first
+    if (not checkGetValidity(isVector<T>::value, error)) {
+        return false;
+    }
     if (not checkSetValidity(getUserInputSize(value), error)) {
         return false;
     }
-- 
2.43.0


From 59ae487e55c30136726e860125216ce0acf1a98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:45 +0000
Subject: [PATCH 08/43] fix: read array elements of a configuration at their
 own offset

---
 parameter/ArrayParameter.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parameter/ArrayParameter.cpp b/parameter/ArrayParameter.cpp
index d7d6d30..d78cc95 100644
--- a/parameter/ArrayParameter.cpp
+++ b/parameter/ArrayParameter.cpp
@@ -110,7 +110,8 @@ bool CArrayParameter::accessValue(CPathNavigator &pathNavigator, string &strValu
 
         } else {
             // Scalar requested
-            CParameter::doGetValue(strValue, getOffset() + index * getSize(),
+            CParameter::doGetValue(strValue, getOffset() + index * getSize() -
+                                                 parameterAccessContext.getBaseOffset(),
                                    parameterAccessContext);
         }
     }
-- 
2.43.0


From e303139a33002452dfcee72ab2d74d1437a7c9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:13 +0000
Subject: [PATCH 09/43] fix: leave an array parameter unchanged when one of its
 new values is refused

---
 parameter/ArrayParameter.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/parameter/ArrayParameter.cpp b/parameter/ArrayParameter.cpp
index d78cc95..5d94ded 100644
--- a/parameter/ArrayParameter.cpp
+++ b/parameter/ArrayParameter.cpp
@@ -269,10 +269,18 @@ bool CArrayParameter::setValues(size_t uiStartIndex, size_t offset, const string
     size_t size = getSize();
     offset += uiStartIndex * size;
 
+    // Keep the current values so that they can be restored if one of the new ones is refused
+    CParameterBlackboard *blackboard = parameterAccessContext.getParameterBlackboard();
+    const size_t startOffset = offset;
+    std::vector<uint8_t> backup(nbValues * size);
+    blackboard->readBytes(backup, startOffset);
+
     for (valueIndex = 0; valueIndex < nbValues; valueIndex++) {
 
         if (!doSet(astrValues[valueIndex], offset, parameterAccessContext)) {
 
+            blackboard->writeBytes(backup, startOffset);
+
             // Append parameter path to error
             parameterAccessContext.appendToError(" " + getPath() + "/" +
                                                  std::to_string(valueIndex + uiStartIndex));
@@ -356,11 +364,18 @@ bool CArrayParameter::setValues(const std::vector<type> &values,
 
     assert(values.size() == nbValues);
 
+    // Keep the current values so that they can be restored if one of the new ones is refused
+    CParameterBlackboard *blackboard = parameterAccessContext.getParameterBlackboard();
+    const size_t startOffset = offset;
+    std::vector<uint8_t> backup(nbValues * size);
+    blackboard->readBytes(backup, startOffset);
+
     // Process
     for (size_t valueIndex = 0; valueIndex < nbValues; valueIndex++) {
 
         if (!doSet(values[valueIndex], offset, parameterAccessContext)) {
 
+            blackboard->writeBytes(backup, startOffset);
             return false;
         }
 
-- 
2.43.0


From 704acd4a402b79400a8cdd78e25c2636774ddcb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:40 +0000
Subject: [PATCH 10/43] fix: store the bytes given to setElementBytes

---
 parameter/ParameterMgr.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parameter/ParameterMgr.cpp b/parameter/ParameterMgr.cpp
index debf81d..1d9c47e 100644
--- a/parameter/ParameterMgr.cpp
+++ b/parameter/ParameterMgr.cpp
@@ -89,6 +89,7 @@
 #include <sstream>
 #include <fstream>
 #include <algorithm>
+#include <iterator>
 #include <stdexcept>
 #include <mutex>
 #include <iomanip>
@@ -1496,7 +1497,7 @@ CParameterMgr::CCommandHandler::CommandStatus CParameterMgr::setElementBytesComm
     auto last = remoteCommand.getArguments().cend();
 
     try {
-        std::transform(first, last, begin(bytes), [](decltype(*first) input) {
+        std::transform(first, last, std::back_inserter(bytes), [](decltype(*first) input) {
             uint8_t byte;
 
             if (!convertTo(input, byte)) {
-- 
2.43.0


From 329e56c85a6103ff3f202b66023bfaaeb5c5a477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:14 +0000
Subject: [PATCH 11/43] fix: refuse application rules with unexpected words
 instead of skipping them

---
 parameter/RuleParser.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/parameter/RuleParser.cpp b/parameter/RuleParser.cpp
index e069cd1..7e8e4e1 100644
--- a/parameter/RuleParser.cpp
+++ b/parameter/RuleParser.cpp
@@ -162,7 +162,17 @@ bool CRuleParser::iterate(string &strError)
         ((delimiter = _strApplicationRule.find_first_of(_acDelimiters[_eStatus], _uiCurrentPos)) !=
          string::npos)) {
 
-        switch (_strApplicationRule[delimiter]) {
+        const char delimiterChar = _strApplicationRule[delimiter];
+
+        // Only a rule type or a criterion name is expected before a delimiter
+        if ((delimiterChar == '}' || delimiterChar == ',') && delimiter != _uiCurrentPos) {
+
+            strError = "Syntax error";
+
+            return false;
+        }
+
+        switch (delimiterChar) {
 
         case '{':
             _eStatus = EBeginCompoundRule;
-- 
2.43.0


From 8f3573b7977258c7c07efdaeb19844305340cb3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:14 +0000
Subject: [PATCH 12/43] fix: refuse application rules with several root rules

---
 parameter/RuleParser.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/parameter/RuleParser.cpp b/parameter/RuleParser.cpp
index 7e8e4e1..45169f8 100644
--- a/parameter/RuleParser.cpp
+++ b/parameter/RuleParser.cpp
@@ -100,6 +100,13 @@ bool CRuleParser::parse(CCompoundRule *pParentRule, string &strError)
         case EEndCompoundRule:
             return true;
         case EContinue:
+            // Only one root rule is allowed
+            if (pParentRule == nullptr) {
+
+                strError = "Syntax error, only one root rule is allowed";
+
+                return false;
+            }
             // Seek for new rule
             break;
         case ECriterionRule: {
-- 
2.43.0


From 69f08d7811c112a7cfeabae8f90a0e1379b277b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:23 +0000
Subject: [PATCH 13/43] fix: keep combined values of inclusive criteria when
 dumping or exporting rules

---
 parameter/SelectionCriterionRule.cpp | 19 ++++++++++++++-----
 parameter/SelectionCriterionRule.h   |  3 +++
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/parameter/SelectionCriterionRule.cpp b/parameter/SelectionCriterionRule.cpp
index 8c22045..2a76763 100644
--- a/parameter/SelectionCriterionRule.cpp
+++ b/parameter/SelectionCriterionRule.cpp
@@ -111,8 +111,7 @@ bool CSelectionCriterionRule::parse(CRuleParser &ruleParser, string &strError)
 string CSelectionCriterionRule::dump() const
 {
     // Value
-    string value;
-    _pSelectionCriterion->getCriterionType()->getLiteralValue(_iMatchValue, value);
+    string value = getFormattedMatchValue();
 
     // "<Name> <Verb> <Value>"
     return string(_pSelectionCriterion->getName()) + " " +
@@ -206,11 +205,21 @@ void CSelectionCriterionRule::toXml(CXmlElement &xmlElement, CXmlSerializingCont
     xmlElement.setAttribute("MatchesWhen", _astMatchesWhen[_eMatchesWhen].pcMatchesWhen);
 
     // Set Value
-    string strValue;
+    xmlElement.setAttribute("Value", getFormattedMatchValue());
+}
 
-    _pSelectionCriterion->getCriterionType()->getLiteralValue(_iMatchValue, strValue);
+// Match value as accepted when parsing a rule
+string CSelectionCriterionRule::getFormattedMatchValue() const
+{
+    const ISelectionCriterionTypeInterface *type = _pSelectionCriterion->getCriterionType();
+    string value;
+
+    if (!type->getLiteralValue(_iMatchValue, value)) {
 
-    xmlElement.setAttribute("Value", strValue);
+        // Not a single literal: combination of values of an inclusive criterion
+        value = type->getFormattedState(_iMatchValue);
+    }
+    return value;
 }
 
 // XML MatchesWhen attribute parsing
diff --git a/parameter/SelectionCriterionRule.h b/parameter/SelectionCriterionRule.h
index 7dac343..e98efa4 100644
--- a/parameter/SelectionCriterionRule.h
+++ b/parameter/SelectionCriterionRule.h
@@ -82,6 +82,9 @@ private:
     // XML MatchesWhen attribute parsing
     bool setMatchesWhen(const std::string &strMatchesWhen, std::string &strError);
 
+    // Match value formatting
+    std::string getFormattedMatchValue() const;
+
     // Selection criterion
     const CSelectionCriterion *_pSelectionCriterion{nullptr};
 
-- 
2.43.0


From 98f6a6446e5b5f6c1d7b7f3689b797156fca05c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:07 +0000
Subject: [PATCH 14/43] fix: refuse application rules where a verb or a value
 is missing

---
 parameter/RuleParser.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parameter/RuleParser.cpp b/parameter/RuleParser.cpp
index 45169f8..eb06097 100644
--- a/parameter/RuleParser.cpp
+++ b/parameter/RuleParser.cpp
@@ -266,7 +266,9 @@ bool CRuleParser::next(string &strNext, string &strError)
         _uiCurrentPos = delimiter;
     }
 
-    if ((delimiter = _strApplicationRule.find_first_of("{} ,", _uiCurrentPos)) == string::npos) {
+    // A word is expected before the next delimiter
+    if ((delimiter = _strApplicationRule.find_first_of("{} ,", _uiCurrentPos)) == string::npos ||
+        delimiter == _uiCurrentPos) {
 
         strError = "Syntax error";
 
-- 
2.43.0


From 1b2449026af89f91565c43412f65d76be963b0b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:42 +0000
Subject: [PATCH 15/43] fix: read the value of a configuration from it even
 when it is the last applied

---
 parameter/ParameterMgr.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/parameter/ParameterMgr.cpp b/parameter/ParameterMgr.cpp
index 1d9c47e..a0e9199 100644
--- a/parameter/ParameterMgr.cpp
+++ b/parameter/ParameterMgr.cpp
@@ -2068,16 +2068,13 @@ bool CParameterMgr::accessConfigurationValue(const string &strDomain,
 
     /// If the Configuration is the last one applied, update the Main Blackboard as well
 
-    if (bIsLastApplied) {
+    if (bSet && bIsLastApplied) {
 
         // Define Main context
         parameterAccessContext.setParameterBlackboard(_pMainParameterBlackboard);
 
         // Activate the auto synchronization with the hardware
-        if (bSet) {
-
-            parameterAccessContext.setAutoSync(_bAutoSyncOn);
-        }
+        parameterAccessContext.setAutoSync(_bAutoSyncOn);
 
         // Access Value in the Main Blackboard
         return accessValue(parameterAccessContext, strPath, strValue, bSet, strError);
-- 
2.43.0


From 9305b101df32abded49cbe2b549bb0048bc11e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:12 +0000
Subject: [PATCH 16/43] fix: report the failure to split a domain's element

---
 parameter/ConfigurableDomains.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/parameter/ConfigurableDomains.cpp b/parameter/ConfigurableDomains.cpp
index 35674fd..faceb7c 100644
--- a/parameter/ConfigurableDomains.cpp
+++ b/parameter/ConfigurableDomains.cpp
@@ -310,9 +310,7 @@ bool CConfigurableDomains::split(const string &domainName, CConfigurableElement
         return false;
     }
     // Delegate
-    domain->split(element, infos);
-
-    return true;
+    return domain->split(element, infos);
 }
 
 void CConfigurableDomains::listAssociatedElements(string &strResult) const
-- 
2.43.0


From 379995e80abd898f79117de3deeee061a74a5f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:12 +0000
Subject: [PATCH 17/43] fix: leave the element sequence unchanged when the new
 one is refused

---
 parameter/DomainConfiguration.cpp | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/parameter/DomainConfiguration.cpp b/parameter/DomainConfiguration.cpp
index f5d7182..1eb7c6e 100644
--- a/parameter/DomainConfiguration.cpp
+++ b/parameter/DomainConfiguration.cpp
@@ -228,24 +228,29 @@ void CDomainConfiguration::removeConfigurableElement(
 bool CDomainConfiguration::setElementSequence(const std::vector<string> &newElementSequence,
                                               string &error)
 {
-    std::vector<string> elementSequenceSet;
-    auto insertLocation = begin(mAreaConfigurationList);
-
-    for (const std::string &elementPath : newElementSequence) {
+    // Check the whole sequence before changing anything
+    for (auto element = begin(newElementSequence); element != end(newElementSequence); ++element) {
 
-        auto areaConfiguration = findAreaConfigurationByPath(elementPath);
-        if (areaConfiguration == end(mAreaConfigurationList)) {
+        if (findAreaConfigurationByPath(*element) == end(mAreaConfigurationList)) {
 
-            error = "Element " + elementPath + " not found in domain";
+            error = "Element " + *element + " not found in domain";
 
             return false;
         }
-        auto it = find(begin(elementSequenceSet), end(elementSequenceSet), elementPath);
-        if (it != end(elementSequenceSet)) {
-            error = "Element " + elementPath + " provided more than once";
+        if (find(begin(newElementSequence), element, *element) != element) {
+
+            error = "Element " + *element + " provided more than once";
+
             return false;
         }
-        elementSequenceSet.push_back(elementPath);
+    }
+
+    auto insertLocation = begin(mAreaConfigurationList);
+
+    for (const std::string &elementPath : newElementSequence) {
+
+        auto areaConfiguration = findAreaConfigurationByPath(elementPath);
+
         // Take into account the new configuration order by moving the configuration associated to
         // the element to the n-th position of the configuration list.
         // It will result in prepending to the configuration list wit the configuration of all
-- 
2.43.0


From 8686a10816b9241479c1d4751967e57815727b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:33 +0000
Subject: [PATCH 18/43] fix: refuse to set settings of elements that are not
 rogue through their handle

---
 parameter/ElementHandle.cpp       | 17 +++++++++++++++++
 parameter/include/ElementHandle.h |  9 +++++++++
 2 files changed, 26 insertions(+)

diff --git a/parameter/ElementHandle.cpp b/parameter/ElementHandle.cpp
index 453f354..2257c69 100644
--- a/parameter/ElementHandle.cpp
+++ b/parameter/ElementHandle.cpp
@@ -174,6 +174,9 @@ bool ElementHandle::getAsXML(std::string &xmlValue, std::string &error) const
 
 bool ElementHandle::setAsXML(const std::string &xmlValue, std::string &error)
 {
+    if (not checkRogue(error)) {
+        return false;
+    }
     return mParameterMgr.setSettingsAsXML(&mElement, xmlValue, error);
 }
 
@@ -190,6 +193,9 @@ bool ElementHandle::getAsBytes(std::vector<uint8_t> &bytesValue, std::string & /
 
 bool ElementHandle::setAsBytes(const std::vector<uint8_t> &bytesValue, std::string &error)
 {
+    if (not checkRogue(error)) {
+        return false;
+    }
     return mParameterMgr.setSettingsAsBytes(mElement, bytesValue, error);
 }
 
@@ -388,3 +394,14 @@ bool ElementHandle::checkSetValidity(size_t arrayLength, string &error) const
 
     return true;
 }
+
+bool ElementHandle::checkRogue(string &error) const
+{
+    if (!isRogue()) {
+
+        error = "Can not set element \"" + getPath() + "\" as it is not rogue.";
+        return false;
+    }
+
+    return true;
+}
diff --git a/parameter/include/ElementHandle.h b/parameter/include/ElementHandle.h
index 7d0888a..d5e7b4d 100644
--- a/parameter/include/ElementHandle.h
+++ b/parameter/include/ElementHandle.h
@@ -258,6 +258,15 @@ private:
      */
     bool checkGetValidity(bool asArray, std::string &error) const;
 
+    /** Check that the element is allowed to be set.
+     *
+     * @param error[out] If the element is not rogue, a human readable message explaining why
+     *                   Otherwise, not modified.
+     *
+     * @return true if the element is rogue, false otherwise.
+     */
+    bool checkRogue(std::string &error) const;
+
     /** Reference to the handled Configurable element. */
     CConfigurableElement &mElement;
 
-- 
2.43.0


From cc5c0aea26e191711594908676d248b24930c1c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:51 +0000
Subject: [PATCH 19/43] fix: hold the blackboard lock while a handle gets or
 sets settings

---
 parameter/ElementHandle.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/parameter/ElementHandle.cpp b/parameter/ElementHandle.cpp
index 2257c69..fcedad0 100644
--- a/parameter/ElementHandle.cpp
+++ b/parameter/ElementHandle.cpp
@@ -162,6 +162,9 @@ struct isVector<std::vector<T>> : std::true_type
 
 bool ElementHandle::getAsXML(std::string &xmlValue, std::string &error) const
 {
+    // Ensure we're safe against blackboard foreign access
+    lock_guard<mutex> autoLock(mParameterMgr.getBlackboardMutex());
+
     std::string result;
     if (not mParameterMgr.getSettingsAsXML(&mElement, result)) {
         error = result;
@@ -177,11 +180,17 @@ bool ElementHandle::setAsXML(const std::string &xmlValue, std::string &error)
     if (not checkRogue(error)) {
         return false;
     }
+    // Ensure we're safe against blackboard foreign access
+    lock_guard<mutex> autoLock(mParameterMgr.getBlackboardMutex());
+
     return mParameterMgr.setSettingsAsXML(&mElement, xmlValue, error);
 }
 
 bool ElementHandle::getAsBytes(std::vector<uint8_t> &bytesValue, std::string & /*error*/) const
 {
+    // Ensure we're safe against blackboard foreign access
+    lock_guard<mutex> autoLock(mParameterMgr.getBlackboardMutex());
+
     mParameterMgr.getSettingsAsBytes(mElement, bytesValue);
 
     // Currently this operation can not fail.
@@ -196,6 +205,9 @@ bool ElementHandle::setAsBytes(const std::vector<uint8_t> &bytesValue, std::stri
     if (not checkRogue(error)) {
         return false;
     }
+    // Ensure we're safe against blackboard foreign access
+    lock_guard<mutex> autoLock(mParameterMgr.getBlackboardMutex());
+
     return mParameterMgr.setSettingsAsBytes(mElement, bytesValue, error);
 }
 
-- 
2.43.0


From 53869b98a05b0add0f5ba9e415f3a630ecf2860e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:47 +0000
Subject: [PATCH 20/43] fix: validate a domain imported alone against the
 current values

Areas without settings stayed invalid: restoring such a configuration
asserted or applied zeros.
---
 parameter/ParameterMgr.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parameter/ParameterMgr.cpp b/parameter/ParameterMgr.cpp
index a0e9199..8ef59d0 100644
--- a/parameter/ParameterMgr.cpp
+++ b/parameter/ParameterMgr.cpp
@@ -2584,7 +2584,11 @@ bool CParameterMgr::importSingleDomainXml(const string &xmlSource, bool overwrit
     }
 
     // ownership has been transfered to the ConfigurableDomains object
-    standaloneDomain.release();
+    CConfigurableDomain *importedDomain = standaloneDomain.release();
+
+    // Validate domain after XML import
+    importedDomain->validate(_pMainParameterBlackboard);
+
     return true;
 }
 
-- 
2.43.0


From f79da78b5cd3496b1939f147036158b53731f9a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:03 +0000
Subject: [PATCH 21/43] fix: leave settings untouched when a settings document
 is refused

Values preceding the faulty one were set, and never synchronised.
---
 parameter/ParameterMgr.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/parameter/ParameterMgr.cpp b/parameter/ParameterMgr.cpp
index 8ef59d0..38c2db6 100644
--- a/parameter/ParameterMgr.cpp
+++ b/parameter/ParameterMgr.cpp
@@ -1560,8 +1560,14 @@ bool CParameterMgr::setSettingsAsXML(CConfigurableElement *configurableElement,
     if (doc == nullptr) {
         return false;
     }
+
+    // A refused document shall leave the settings untouched
+    std::vector<uint8_t> backup;
+    getSettingsAsBytes(*configurableElement, backup);
+
     if (not xmlParse(xmlParameterContext, configurableElement, doc, "",
                      EParameterConfigurationLibrary, false)) {
+        _pMainParameterBlackboard->writeBytes(backup, configurableElement->getOffset());
         return false;
     }
     if (_bAutoSyncOn) {
-- 
2.43.0


From 71e636925f09e332c7992109fc29e08e44057834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:20 +0000
Subject: [PATCH 22/43] fix: refuse messages whose size or strings exceed their
 contents

---
 remote-processor/AnswerMessage.cpp  |  8 ++++++--
 remote-processor/AnswerMessage.h    |  2 +-
 remote-processor/Message.cpp        | 23 +++++++++++++++++++++--
 remote-processor/Message.h          | 11 ++++++++---
 remote-processor/RequestMessage.cpp | 12 +++++++++---
 remote-processor/RequestMessage.h   |  2 +-
 6 files changed, 46 insertions(+), 12 deletions(-)

diff --git a/remote-processor/AnswerMessage.cpp b/remote-processor/AnswerMessage.cpp
index 7ae948f..e1721d2 100644
--- a/remote-processor/AnswerMessage.cpp
+++ b/remote-processor/AnswerMessage.cpp
@@ -79,12 +79,16 @@ void CAnswerMessage::fillDataToSend()
 }
 
 // Collect received data
-void CAnswerMessage::collectReceivedData()
+bool CAnswerMessage::collectReceivedData()
 {
     // Receive answer
     string strAnswer;
 
-    readString(strAnswer);
+    if (!readString(strAnswer)) {
+        return false;
+    }
 
     setAnswer(strAnswer);
+
+    return true;
 }
diff --git a/remote-processor/AnswerMessage.h b/remote-processor/AnswerMessage.h
index 2bc5147..f4433c4 100644
--- a/remote-processor/AnswerMessage.h
+++ b/remote-processor/AnswerMessage.h
@@ -49,7 +49,7 @@ private:
     // Fill data to send
     void fillDataToSend() override;
     // Collect received data
-    void collectReceivedData() override;
+    bool collectReceivedData() override;
 
     /** @return size of the answer message in bytes
     */
diff --git a/remote-processor/Message.cpp b/remote-processor/Message.cpp
index 66154ec..9d2467c 100644
--- a/remote-processor/Message.cpp
+++ b/remote-processor/Message.cpp
@@ -94,13 +94,20 @@ void CMessage::writeString(const string &strData)
     writeData(strData.c_str(), size);
 }
 
-void CMessage::readString(string &strData)
+bool CMessage::readString(string &strData)
 {
     // Size
     uint32_t uiSize;
 
+    if (getRemainingDataSize() < sizeof(uiSize)) {
+        return false;
+    }
     readData(&uiSize, sizeof(uiSize));
 
+    if (getRemainingDataSize() < uiSize) {
+        return false;
+    }
+
     // Data
     std::vector<char> string(uiSize + 1);
 
@@ -112,6 +119,8 @@ void CMessage::readString(string &strData)
 
     // Output
     strData = string.data();
+
+    return true;
 }
 
 size_t CMessage::getStringSize(const string &strData) const
@@ -222,6 +231,12 @@ CMessage::Result CMessage::serialize(Socket &&socket, bool bOut, string &strErro
 
         // Data
 
+        if (uiSize < sizeof(_ucMsgId)) {
+
+            strError = "Size incorrect";
+            return error;
+        }
+
         // Allocate
         allocateData(uiSize - sizeof(_ucMsgId));
 
@@ -246,7 +261,11 @@ CMessage::Result CMessage::serialize(Socket &&socket, bool bOut, string &strErro
         }
 
         // Collect data in derived
-        collectReceivedData();
+        if (!collectReceivedData()) {
+
+            strError = "Malformed message content";
+            return error;
+        }
     }
 
     return success;
diff --git a/remote-processor/Message.h b/remote-processor/Message.h
index 2a596f1..d73b2a5 100644
--- a/remote-processor/Message.h
+++ b/remote-processor/Message.h
@@ -100,8 +100,10 @@ protected:
     /** Write string to the message
     *
     * @param[out] strData the string to read to
+    *
+    * @return false if the remaining data does not hold a whole string, true otherwise
     */
-    void readString(std::string &strData);
+    bool readString(std::string &strData);
 
     /** @return string length plus room to store its length
     *
@@ -124,8 +126,11 @@ private:
     void allocateData(size_t uiDataSize);
     // Fill data to send
     virtual void fillDataToSend() = 0;
-    // Collect received data
-    virtual void collectReceivedData() = 0;
+    /** Collect received data
+     *
+     * @return false if the received data is malformed, true otherwise
+     */
+    virtual bool collectReceivedData() = 0;
 
     /** @return size of the transaction data in bytes
     */
diff --git a/remote-processor/RequestMessage.cpp b/remote-processor/RequestMessage.cpp
index 0c32438..921e68b 100644
--- a/remote-processor/RequestMessage.cpp
+++ b/remote-processor/RequestMessage.cpp
@@ -104,12 +104,14 @@ void CRequestMessage::fillDataToSend()
 }
 
 // Collect received data
-void CRequestMessage::collectReceivedData()
+bool CRequestMessage::collectReceivedData()
 {
     // Receive command
     string strCommand;
 
-    readString(strCommand);
+    if (!readString(strCommand)) {
+        return false;
+    }
 
     setCommand(strCommand);
 
@@ -118,10 +120,14 @@ void CRequestMessage::collectReceivedData()
 
         string strArgument;
 
-        readString(strArgument);
+        if (!readString(strArgument)) {
+            return false;
+        }
 
         addArgument(strArgument);
     }
+
+    return true;
 }
 
 // Size
diff --git a/remote-processor/RequestMessage.h b/remote-processor/RequestMessage.h
index 57c0be0..524bb16 100644
--- a/remote-processor/RequestMessage.h
+++ b/remote-processor/RequestMessage.h
@@ -64,7 +64,7 @@ private:
     // Fill data to send
     void fillDataToSend() override;
     // Collect received data
-    void collectReceivedData() override;
+    bool collectReceivedData() override;
     // Size
     /**
      * @return size of the request message in bytes
-- 
2.43.0


From 3c29d48a080bfa38ea599b1927f8e39067fd2bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:20 +0000
Subject: [PATCH 23/43] fix: require both arguments of setSequenceAwareness

---
 parameter/ParameterMgr.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parameter/ParameterMgr.cpp b/parameter/ParameterMgr.cpp
index 38c2db6..e354c02 100644
--- a/parameter/ParameterMgr.cpp
+++ b/parameter/ParameterMgr.cpp
@@ -195,7 +195,7 @@ const CParameterMgr::SRemoteCommandParserItem CParameterMgr::gastRemoteCommandPa
      "Delete all configurable domains"},
     {"renameDomain", &CParameterMgr::renameDomainCommandProcess, 2, "<domain> <new name>",
      "Rename configurable domain"},
-    {"setSequenceAwareness", &CParameterMgr::setSequenceAwarenessCommandProcess, 1,
+    {"setSequenceAwareness", &CParameterMgr::setSequenceAwarenessCommandProcess, 2,
      "<domain> true|false*", "Set configurable domain sequence awareness"},
     {"getSequenceAwareness", &CParameterMgr::getSequenceAwarenessCommandProcess, 1, "<domain>",
      "Get configurable domain sequence awareness"},
-- 
2.43.0


From 3fa6c74ac1baab0fa49ead0859d82aa1a14825fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:25 +0000
Subject: [PATCH 24/43] fix: refuse form feeds in numbers like other white
 space

---
 utility/convert.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utility/convert.hpp b/utility/convert.hpp
index fcf8e03..8287594 100644
--- a/utility/convert.hpp
+++ b/utility/convert.hpp
@@ -122,7 +122,7 @@ static inline bool convertTo(const std::string &str, T &result)
      * with this type, thus that the result is undefined. */
     static_assert(ConvertionAllowed<T>::value, "convertTo does not support this conversion");
 
-    if (str.find_first_of(std::string("\r\n\t\v ")) != std::string::npos) {
+    if (str.find_first_of(std::string("\r\n\t\v\f ")) != std::string::npos) {
         return false;
     }
 
-- 
2.43.0


From 146d47076c329909154d0f520c7ac928e60ff2f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:30 +0000
Subject: [PATCH 25/43] fix: hold the blackboard lock in tuning operations that
 use the settings

---
 parameter/ParameterMgr.cpp | 36 ++++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/parameter/ParameterMgr.cpp b/parameter/ParameterMgr.cpp
index e354c02..a50f305 100644
--- a/parameter/ParameterMgr.cpp
+++ b/parameter/ParameterMgr.cpp
@@ -1443,6 +1443,9 @@ CParameterMgr::CCommandHandler::CommandStatus CParameterMgr::getElementBytesComm
     const CConfigurableElement *pConfigurableElement =
         static_cast<CConfigurableElement *>(pLocatedElement);
 
+    // Lock state
+    lock_guard<mutex> autoLock(getBlackboardMutex());
+
     // Get the settings
     vector<uint8_t> bytes;
     getSettingsAsBytes(*pConfigurableElement, bytes);
@@ -1512,6 +1515,9 @@ CParameterMgr::CCommandHandler::CommandStatus CParameterMgr::setElementBytesComm
         return CCommandHandler::EFailed;
     }
 
+    // Lock state
+    lock_guard<mutex> autoLock(getBlackboardMutex());
+
     // Set the settings
     if (!setSettingsAsBytes(*pConfigurableElement, bytes, strResult)) {
 
@@ -1595,6 +1601,9 @@ CParameterMgr::CCommandHandler::CommandStatus CParameterMgr::getElementXMLComman
         return CCommandHandler::EFailed;
     }
 
+    // Lock state
+    lock_guard<mutex> autoLock(getBlackboardMutex());
+
     if (not getSettingsAsXML(static_cast<CConfigurableElement *>(locatedElement), result)) {
         return CCommandHandler::EFailed;
     }
@@ -1617,6 +1626,9 @@ CParameterMgr::CCommandHandler::CommandStatus CParameterMgr::setElementXMLComman
 
         return CCommandHandler::EFailed;
     }
+    // Lock state
+    lock_guard<mutex> autoLock(getBlackboardMutex());
+
     if (not setSettingsAsXML(static_cast<CConfigurableElement *>(locatedElement),
                              remoteCommand.getArgument(1), result)) {
         return CCommandHandler::EFailed;
@@ -1641,6 +1653,9 @@ CParameterMgr::CCommandHandler::CommandStatus CParameterMgr::dumpElementCommandP
     CParameterAccessContext parameterAccessContext(strError, _pMainParameterBlackboard,
                                                    _bValueSpaceIsRaw, _bOutputRawFormatIsHex);
 
+    // Lock state
+    lock_guard<mutex> autoLock(getBlackboardMutex());
+
     // Dump elements
     strResult = pLocatedElement->dumpContent(parameterAccessContext);
 
@@ -2212,6 +2227,9 @@ bool CParameterMgr::sync(string &strError)
     // ... from system class
     getConstSystemClass()->fillSyncerSet(syncerSet);
 
+    // Lock state
+    lock_guard<mutex> autoLock(getBlackboardMutex());
+
     // Sync
     core::Results error;
     if (!syncerSet.sync(*_pMainParameterBlackboard, false, &error)) {
@@ -2314,6 +2332,9 @@ bool CParameterMgr::createConfiguration(const string &strDomain, const string &s
         return false;
     }
 
+    // Lock state
+    lock_guard<mutex> autoLock(getBlackboardMutex());
+
     // Delegate to configurable domains
     return logResult(getConfigurableDomains()->createConfiguration(
                          strDomain, strConfiguration, _pMainParameterBlackboard, strError),
@@ -2363,6 +2384,9 @@ bool CParameterMgr::restoreConfiguration(const string &strDomain, const string &
         return false;
     }
 
+    // Lock state
+    lock_guard<mutex> autoLock(getBlackboardMutex());
+
     // Delegate to configurable domains
     return logResult(
         getConstConfigurableDomains()->restoreConfiguration(
@@ -2382,6 +2406,9 @@ bool CParameterMgr::saveConfiguration(const string &strDomain, const string &str
         return false;
     }
 
+    // Lock state
+    lock_guard<mutex> autoLock(getBlackboardMutex());
+
     // Delegate to configurable domains
     return logResult(getConfigurableDomains()->saveConfiguration(
                          strDomain, strConfiguration, _pMainParameterBlackboard, strError),
@@ -2416,6 +2443,9 @@ bool CParameterMgr::addConfigurableElementToDomain(const string &strDomain,
     CConfigurableElement *pConfigurableElement =
         static_cast<CConfigurableElement *>(pLocatedElement);
 
+    // Lock state
+    lock_guard<mutex> autoLock(getBlackboardMutex());
+
     // Delegate
     core::Results infos;
     bool isSuccess = getConfigurableDomains()->addConfigurableElementToDomain(
@@ -2559,6 +2589,9 @@ bool CParameterMgr::importDomainsXml(const string &xmlSource, bool withSettings,
 
     if (importSuccess) {
 
+        // Lock state
+        lock_guard<mutex> autoLock(getBlackboardMutex());
+
         // Validate domains after XML import
         pConfigurableDomains->validate(_pMainParameterBlackboard);
     }
@@ -2592,6 +2625,9 @@ bool CParameterMgr::importSingleDomainXml(const string &xmlSource, bool overwrit
     // ownership has been transfered to the ConfigurableDomains object
     CConfigurableDomain *importedDomain = standaloneDomain.release();
 
+    // Lock state
+    lock_guard<mutex> autoLock(getBlackboardMutex());
+
     // Validate domain after XML import
     importedDomain->validate(_pMainParameterBlackboard);
 
-- 
2.43.0


From 244f0750563649230ad97dc8059b302915d30333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:31 +0000
Subject: [PATCH 26/43] fix: return the value of a mapping item looked up by
 key

CMappingContext::getItem(key) is documented to return the value of the item
but returned its key.
---
 parameter/MappingContext.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parameter/MappingContext.cpp b/parameter/MappingContext.cpp
index 3599296..2b9f14c 100644
--- a/parameter/MappingContext.cpp
+++ b/parameter/MappingContext.cpp
@@ -71,7 +71,7 @@ const string *CMappingContext::getItem(const string &strKey) const
     auto itemFound = find_if(begin(mItems), end(mItems), [&](const SItem &item) {
         return item.strKey != nullptr && strKey == *item.strKey;
     });
-    return (itemFound != end(mItems)) ? itemFound->strKey : nullptr;
+    return (itemFound != end(mItems)) ? itemFound->strItem : nullptr;
 }
 
 bool CMappingContext::iSet(size_t itemType) const
-- 
2.43.0


From b976ab36f9726dee3b6ed91c177f3132c389eb07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:31 +0000
Subject: [PATCH 27/43] fix: let the C interface recover from a start that
 failed

After pfwStart failed, the other functions used the parameter framework that
was not started (aborting on its assertions) and another pfwStart was refused.
---
 bindings/c/ParameterFramework.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/bindings/c/ParameterFramework.cpp b/bindings/c/ParameterFramework.cpp
index 858994b..69f5962 100644
--- a/bindings/c/ParameterFramework.cpp
+++ b/bindings/c/ParameterFramework.cpp
@@ -141,6 +141,8 @@ private:
 struct PfwHandler_ : private utility::NonCopyable
 {
     void setLogger(const PfwLogger *logger);
+    /** Forget a parameter framework that is not, or could not be, started. */
+    void reset();
     bool createCriteria(const PfwCriterion criteria[], size_t criterionNb);
 
     pfw::Criteria criteria;
@@ -165,6 +167,13 @@ void pfwDestroy(PfwHandler *handle)
     delete handle;
 }
 
+void PfwHandler::reset()
+{
+    delete pfw;
+    pfw = nullptr;
+    criteria.clear();
+}
+
 void PfwHandler::setLogger(const PfwLogger *logger)
 {
     if (logger != nullptr and logger->logCb == nullptr) {
@@ -235,11 +244,15 @@ bool pfwStart(PfwHandler *handle, const char *configPath, const PfwCriterion cri
 
     handle->setLogger(logger);
 
-    if (not handle->createCriteria(criteria, criterionNb)) {
+    if (not handle->createCriteria(criteria, criterionNb) or
+        not handle->pfw->start(status.msg())) {
+        // A parameter framework that could not be started is not started:
+        // the other functions must not use it and the client may try again.
+        handle->reset();
         return status.failure();
     }
 
-    return status.forward(handle->pfw->start(status.msg()));
+    return status.success();
 }
 
 const char *pfwGetLastError(const PfwHandler *handle)
-- 
2.43.0


From b1db239118c180a8db523546edf04d90a0b7f3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:57 +0000
Subject: [PATCH 28/43] fix: report an unconvertible attribute of a document's
 root element

---
 parameter/ParameterMgr.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/parameter/ParameterMgr.cpp b/parameter/ParameterMgr.cpp
index a50f305..b23d946 100644
--- a/parameter/ParameterMgr.cpp
+++ b/parameter/ParameterMgr.cpp
@@ -28,6 +28,7 @@
  * SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
  */
 #include "version.h"
+#include "PfError.hpp"
 #include "ParameterMgr.h"
 #include "ConfigurationAccessContext.h"
 #include "XmlParameterSerializingContext.h"
@@ -641,7 +642,14 @@ bool CParameterMgr::xmlParse(CXmlElementSerializingContext &elementSerializingCo
 
     CXmlMemoryDocSink memorySink(pRootElement);
 
-    if (!memorySink.process(docSource, elementSerializingContext)) {
+    try {
+        if (!memorySink.process(docSource, elementSerializingContext)) {
+            clean();
+            return false;
+        }
+    } catch (const PfError &e) {
+        // An attribute of the root element could not be converted
+        elementSerializingContext.appendLineToError(e.what());
         clean();
         return false;
     }
-- 
2.43.0


From 50047f6999b935b8f5d2201033d101fa26748078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:57 +0000
Subject: [PATCH 29/43] fix: refuse a subsystem without InstanceDefinition
 instead of dereferencing null

---
 parameter/Subsystem.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/parameter/Subsystem.cpp b/parameter/Subsystem.cpp
index c422a88..cfb9853 100644
--- a/parameter/Subsystem.cpp
+++ b/parameter/Subsystem.cpp
@@ -125,15 +125,19 @@ bool CSubsystem::structureFromXml(const CXmlElement &xmlElement,
     }
 
     // XML populate ComponentLibrary
-    xmlElement.getChildElement("ComponentLibrary", childElement);
-
-    if (!_pComponentLibrary->fromXml(childElement, serializingContext)) {
+    if (xmlElement.getChildElement("ComponentLibrary", childElement) &&
+        !_pComponentLibrary->fromXml(childElement, serializingContext)) {
 
         return false;
     }
 
-    // XML populate InstanceDefintion
-    xmlElement.getChildElement("InstanceDefintion", childElement);
+    // XML populate InstanceDefinition
+    if (!xmlElement.getChildElement("InstanceDefinition", childElement)) {
+
+        serializingContext.setError("No InstanceDefinition found in " + xmlElement.getPath());
+
+        return false;
+    }
     if (!_pInstanceDefinition->fromXml(childElement, serializingContext)) {
 
         return false;
-- 
2.43.0


From 097632d585110cf086ff25ea57343ba605642a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:57 +0000
Subject: [PATCH 30/43] fix: refuse a domain document without its sections
 instead of dereferencing null

---
 parameter/ConfigurableDomain.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/parameter/ConfigurableDomain.cpp b/parameter/ConfigurableDomain.cpp
index 71bb3e8..aa3cd9b 100644
--- a/parameter/ConfigurableDomain.cpp
+++ b/parameter/ConfigurableDomain.cpp
@@ -248,7 +248,12 @@ bool CConfigurableDomain::parseDomainConfigurations(const CXmlElement &xmlElemen
     // Get Configurations element
     CXmlElement xmlConfigurationsElement;
 
-    xmlElement.getChildElement("Configurations", xmlConfigurationsElement);
+    if (!xmlElement.getChildElement("Configurations", xmlConfigurationsElement)) {
+
+        serializingContext.setError("No Configurations found in " + xmlElement.getPath());
+
+        return false;
+    }
 
     // Parse it and create domain configuration objects
     return base::fromXml(xmlConfigurationsElement, serializingContext);
@@ -262,7 +267,12 @@ bool CConfigurableDomain::parseConfigurableElements(const CXmlElement &xmlElemen
 
     // Get ConfigurableElements element
     CXmlElement xmlConfigurableElementsElement;
-    xmlElement.getChildElement("ConfigurableElements", xmlConfigurableElementsElement);
+    if (!xmlElement.getChildElement("ConfigurableElements", xmlConfigurableElementsElement)) {
+
+        serializingContext.setError("No ConfigurableElements found in " + xmlElement.getPath());
+
+        return false;
+    }
 
     // Parse it and associate found configurable elements to it
     CXmlElement::CChildIterator it(xmlConfigurableElementsElement);
-- 
2.43.0


From b4845d6cf0fd794fcf74f53ce3cc0d48927cd1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:57 +0000
Subject: [PATCH 31/43] fix: refuse parameter sizes the blackboard accesses
 cannot handle

---
 parameter/BitParameterBlockType.cpp   | 13 +++++++++++--
 parameter/EnumParameterType.cpp       | 11 +++++++++++
 parameter/FixedPointParameterType.cpp |  8 ++++++++
 3 files changed, 30 insertions(+), 2 deletions(-)

diff --git a/parameter/BitParameterBlockType.cpp b/parameter/BitParameterBlockType.cpp
index 316676d..c27939f 100644
--- a/parameter/BitParameterBlockType.cpp
+++ b/parameter/BitParameterBlockType.cpp
@@ -60,8 +60,17 @@ bool CBitParameterBlockType::fromXml(const CXmlElement &xmlElement,
                                      CXmlSerializingContext &serializingContext)
 {
     // Size
-    xmlElement.getAttribute("Size", _size);
-    _size /= 8;
+    size_t sizeInBits = 0;
+    xmlElement.getAttribute("Size", sizeInBits);
+
+    if (sizeInBits != 8 && sizeInBits != 16 && sizeInBits != 32 && sizeInBits != 64) {
+
+        serializingContext.setError("Unsupported size (" + std::to_string(sizeInBits) + ") for " +
+                                    getKind() + " " + xmlElement.getPath());
+
+        return false;
+    }
+    _size = sizeInBits / 8;
 
     // Base
     return base::fromXml(xmlElement, serializingContext);
diff --git a/parameter/EnumParameterType.cpp b/parameter/EnumParameterType.cpp
index 923e2fe..4a8591f 100644
--- a/parameter/EnumParameterType.cpp
+++ b/parameter/EnumParameterType.cpp
@@ -81,6 +81,17 @@ bool CEnumParameterType::fromXml(const CXmlElement &xmlElement,
     // Size in bits
     size_t sizeInBits = 0;
     if (not xmlElement.getAttribute("Size", sizeInBits)) {
+
+        serializingContext.setError("Missing Size attribute in " + xmlElement.getPath());
+
+        return false;
+    }
+
+    if (sizeInBits != 8 && sizeInBits != 16 && sizeInBits != 32) {
+
+        serializingContext.setError("Unsupported size (" + std::to_string(sizeInBits) + ") for " +
+                                    getKind() + " " + xmlElement.getPath());
+
         return false;
     }
 
diff --git a/parameter/FixedPointParameterType.cpp b/parameter/FixedPointParameterType.cpp
index 830ac64..acc512e 100644
--- a/parameter/FixedPointParameterType.cpp
+++ b/parameter/FixedPointParameterType.cpp
@@ -94,6 +94,14 @@ bool CFixedPointParameterType::fromXml(const CXmlElement &xmlElement,
     size_t sizeInBits = 0;
     xmlElement.getAttribute("Size", sizeInBits);
 
+    if (sizeInBits != 8 && sizeInBits != 16 && sizeInBits != 32) {
+
+        serializingContext.setError("Unsupported size (" + std::to_string(sizeInBits) + ") for " +
+                                    getKind() + " " + xmlElement.getPath());
+
+        return false;
+    }
+
     // Q notation
     xmlElement.getAttribute("Integral", _uiIntegral);
     xmlElement.getAttribute("Fractional", _uiFractional);
-- 
2.43.0


From 4e96c5acecc7ab511afc7278832ea3147d039537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:57 +0000
Subject: [PATCH 32/43] fix: refuse an empty bit field or one beyond its block
 whatever its position

---
 parameter/BitParameterType.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parameter/BitParameterType.cpp b/parameter/BitParameterType.cpp
index 7d7daf7..36657a9 100644
--- a/parameter/BitParameterType.cpp
+++ b/parameter/BitParameterType.cpp
@@ -87,7 +87,8 @@ bool CBitParameterType::fromXml(const CXmlElement &xmlElement,
 
     size_t uiParentBlockBitSize = pBitParameterBlockType->getSize() * 8;
 
-    if (_bitPos + _uiBitSize > uiParentBlockBitSize) {
+    if (_uiBitSize == 0 || _uiBitSize > uiParentBlockBitSize ||
+        _bitPos > uiParentBlockBitSize - _uiBitSize) {
 
         // Range exceeded
         std::ostringstream strStream;
-- 
2.43.0


From d11ebc3b6980e1e5a09af673f2e3d39d9905b2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:57 +0000
Subject: [PATCH 33/43] fix: detect a component type that contains itself at
 any depth

---
 parameter/ComponentInstance.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/parameter/ComponentInstance.cpp b/parameter/ComponentInstance.cpp
index 22fcdcc..fb74c03 100644
--- a/parameter/ComponentInstance.cpp
+++ b/parameter/ComponentInstance.cpp
@@ -97,13 +97,17 @@ bool CComponentInstance::fromXml(const CXmlElement &xmlElement,
 
         return false;
     }
-    if (_pComponentType == getParent()) {
+    // The type must not be one of those being defined, at whatever depth
+    for (const CElement *ancestor = getParent(); ancestor; ancestor = ancestor->getParent()) {
 
-        serializingContext.setError("Recursive definition of " + _pComponentType->getName() +
-                                    " due to " + xmlElement.getPath() +
-                                    " referring to one of its own type.");
+        if (_pComponentType == ancestor) {
 
-        return false;
+            serializingContext.setError("Recursive definition of " + _pComponentType->getName() +
+                                        " due to " + xmlElement.getPath() +
+                                        " referring to one of its own type.");
+
+            return false;
+        }
     }
 
     return base::fromXml(xmlElement, serializingContext);
-- 
2.43.0


From f3b65175d3a1940e252d4c8792a5c0f823c824ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:58 +0000
Subject: [PATCH 34/43] fix: round and saturate adapted values so that what is
 read can be set back

---
 parameter/ParameterAdaptation.cpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/parameter/ParameterAdaptation.cpp b/parameter/ParameterAdaptation.cpp
index 67b4bca..686a1dd 100644
--- a/parameter/ParameterAdaptation.cpp
+++ b/parameter/ParameterAdaptation.cpp
@@ -28,6 +28,8 @@
  * SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
  */
 #include "ParameterAdaptation.h"
+#include <cmath>
+#include <limits>
 
 #define base CElement
 
@@ -75,7 +77,21 @@ bool CParameterAdaptation::fromXml(const CXmlElement &xmlElement,
 // Conversions
 int64_t CParameterAdaptation::fromUserValue(double dValue) const
 {
-    return (int64_t)dValue + _iOffset;
+    // Round to the nearest, so that setting the value got is setting the same value
+    const double adapted = std::round(dValue) + _iOffset;
+
+    // What does not fit must stay out of any parameter range
+    const double limit = 9223372036854775808.0; // 2^63
+
+    if (adapted < -limit) {
+
+        return std::numeric_limits<int64_t>::min();
+    }
+    if (!(adapted < limit)) {
+
+        return std::numeric_limits<int64_t>::max();
+    }
+    return static_cast<int64_t>(adapted);
 }
 
 double CParameterAdaptation::toUserValue(int64_t iValue) const
-- 
2.43.0


From 95a215e2503bad1410182c7e43bfeaa9579eef83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:13 +0000
Subject: [PATCH 35/43] fix: stopping a remote server that could not start no
 longer terminates the process

stop() waited for the result of the server thread even when start() had
failed (port already in use) and no thread had been started: getting the
result of an invalid future throws, out of a destructor.
---
 remote-processor/BackgroundRemoteProcessorServer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/remote-processor/BackgroundRemoteProcessorServer.cpp b/remote-processor/BackgroundRemoteProcessorServer.cpp
index 0820786..c025502 100644
--- a/remote-processor/BackgroundRemoteProcessorServer.cpp
+++ b/remote-processor/BackgroundRemoteProcessorServer.cpp
@@ -55,7 +55,8 @@ bool BackgroundRemoteProcessorServer::start(std::string &error)
 bool BackgroundRemoteProcessorServer::stop()
 {
     _server->stop();
-    return mServerSuccess.get();
+    // There is no result to wait for if the server was never started
+    return mServerSuccess.valid() && mServerSuccess.get();
 }
 
 BackgroundRemoteProcessorServer::~BackgroundRemoteProcessorServer()
-- 
2.43.0


From b48c7597857109da961662e10e63fa1f89b7e91f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:13 +0000
Subject: [PATCH 36/43] fix: complete two-character generic plug-in names

The position of the suffix wrapped around to npos when the name was one
character shorter than the suffix, so the name was taken as already having it
and the library was looked for under the bare name.
---
 utility/DynamicLibrary.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/utility/DynamicLibrary.cpp b/utility/DynamicLibrary.cpp
index 40ffecb..de14246 100644
--- a/utility/DynamicLibrary.cpp
+++ b/utility/DynamicLibrary.cpp
@@ -32,7 +32,8 @@
 
 std::string DynamicLibrary::osSanitizePathName(const std::string &path)
 {
-    if (path.rfind(_osLibrarySuffix) == (path.length() - _osLibrarySuffix.length())) {
+    if (path.length() >= _osLibrarySuffix.length() &&
+        path.rfind(_osLibrarySuffix) == (path.length() - _osLibrarySuffix.length())) {
 
         return path;
     }
-- 
2.43.0


From 286dbea1bf7f39ac16f59014ebc5f2475de21cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:53 +0000
Subject: [PATCH 37/43] fix: EDD rules on criteria whose name starts with ANY
 or ALL

An operator stands alone on its line; matching only the beginning of the line
took such a rule for an operator and failed.
---
 tools/xmlGenerator/EddParser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/xmlGenerator/EddParser.py b/tools/xmlGenerator/EddParser.py
index 7f8a5b9..dc22b5d 100755
--- a/tools/xmlGenerator/EddParser.py
+++ b/tools/xmlGenerator/EddParser.py
@@ -402,7 +402,7 @@ class Operator (Rule) :
 
     tag = "operator"
     optionNames = ["Name"]
-    match = re.compile(r"ANY|ALL").match
+    match = re.compile(r"(ANY|ALL)\s*$").match
     childWhiteList = ["Rule", "Operator"]
 
     syntax = { "ANY" : "Any" , "ALL" : "All"}
-- 
2.43.0


From 3619c6fdfb0b59d8dd3ee53e1fbf64f915369426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:53 +0000
Subject: [PATCH 38/43] fix: write the words of PFW script commands

The script is a list of lists of words since commands are given to the
generator word by word.
---
 tools/xmlGenerator/PFWScriptGenerator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/xmlGenerator/PFWScriptGenerator.py b/tools/xmlGenerator/PFWScriptGenerator.py
index 145295d..7442818 100755
--- a/tools/xmlGenerator/PFWScriptGenerator.py
+++ b/tools/xmlGenerator/PFWScriptGenerator.py
@@ -141,7 +141,7 @@ def main ():
         if options.output_kind == 'pfw':
             translator = PfwScriptTranslator()
             myroot.translate(translator)
-            options.output.write("\n".join(translator.getScript()))
+            options.output.write("\n".join(map(" ".join, translator.getScript())))
 
 # execute main function if the python interpreter is running this module as the main program
 if __name__ == "__main__" :
-- 
2.43.0


From faa6e043098d1fef5ede6b68a92d7191d60f1ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:53 +0000
Subject: [PATCH 39/43] fix: criterion values are separated by spaces

Since Python 3.7 splitting at an expression that matches nothing makes every
character a value.
---
 tools/xmlGenerator/domainGenerator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/xmlGenerator/domainGenerator.py b/tools/xmlGenerator/domainGenerator.py
index 12a26f1..8e2c634 100755
--- a/tools/xmlGenerator/domainGenerator.py
+++ b/tools/xmlGenerator/domainGenerator.py
@@ -116,7 +116,7 @@ def parseCriteria(criteriaFile):
 
         criterion_name = match.groupdict()['name']
         criterion_type = match.groupdict()['type']
-        criterion_values = re.split("\s*", match.groupdict()['values'])
+        criterion_values = match.groupdict()['values'].split()
 
         criterion_inclusiveness = criterion_inclusiveness_table[criterion_type]
 
-- 
2.43.0


From f6c8f32625d76b280e49f1fa60c7bd44c4f62ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:53 +0000
Subject: [PATCH 40/43] fix: run the domain generator without schemas and on
 text

The option for the schemas is optional, and the commands written to the
connector are text.
---
 tools/xmlGenerator/domainGenerator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tools/xmlGenerator/domainGenerator.py b/tools/xmlGenerator/domainGenerator.py
index 8e2c634..71573bd 100755
--- a/tools/xmlGenerator/domainGenerator.py
+++ b/tools/xmlGenerator/domainGenerator.py
@@ -206,8 +206,9 @@ def main():
                             fake_toplevel_config.name,
                             'verbose' if args.verbose else 'no-verbose',
                             'validate' if args.validate else 'no-validate',
-                            args.schemas_dir],
-                           stdout=sys.stdout, stdin=subprocess.PIPE, stderr=sys.stderr)
+                            args.schemas_dir or ''],
+                           stdout=sys.stdout, stdin=subprocess.PIPE, stderr=sys.stderr,
+                           universal_newlines=True)
 
     initial_settings = None
     if args.initial_settings:
-- 
2.43.0


From 8476b72b0768d8d47f4f52b0a14f80aead62561a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:48 +0000
Subject: [PATCH 41/43] fix: hold the blackboard lock while editing rules and
 names

---
 parameter/ParameterMgr.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/parameter/ParameterMgr.cpp b/parameter/ParameterMgr.cpp
index b23d946..f19ae14 100644
--- a/parameter/ParameterMgr.cpp
+++ b/parameter/ParameterMgr.cpp
@@ -2282,6 +2282,9 @@ bool CParameterMgr::renameDomain(const string &strName, const string &strNewName
 {
     LOG_CONTEXT("Renaming configurable domain '" + strName + "' to '" + strNewName + "'");
 
+    // Lock state: the rule or name may be in use by an application of configurations
+    lock_guard<mutex> autoLock(getBlackboardMutex());
+
     // Delegate to configurable domains
     return logResult(getConfigurableDomains()->renameDomain(strName, strNewName, strError),
                      strError);
@@ -2354,6 +2357,9 @@ bool CParameterMgr::renameConfiguration(const string &strDomain, const string &s
     LOG_CONTEXT("Renaming domain '" + strDomain + "''s configuration '" + strConfiguration +
                 "' to '" + strNewConfiguration + "'");
 
+    // Lock state: the rule or name may be in use by an application of configurations
+    lock_guard<mutex> autoLock(getBlackboardMutex());
+
     return logResult(getConfigurableDomains()->renameConfiguration(strDomain, strConfiguration,
                                                                    strNewConfiguration, strError),
                      strError);
@@ -2566,6 +2572,9 @@ bool CParameterMgr::getApplicationRule(const string &strDomain, const string &st
 bool CParameterMgr::setApplicationRule(const string &strDomain, const string &strConfiguration,
                                        const string &strApplicationRule, string &strError)
 {
+    // Lock state: the rule or name may be in use by an application of configurations
+    lock_guard<mutex> autoLock(getBlackboardMutex());
+
     return getConfigurableDomains()->setApplicationRule(
         strDomain, strConfiguration, strApplicationRule,
         getConstSelectionCriteria()->getSelectionCriteriaDefinition(), strError);
@@ -2574,6 +2583,9 @@ bool CParameterMgr::setApplicationRule(const string &strDomain, const string &st
 bool CParameterMgr::clearApplicationRule(const string &strDomain, const string &strConfiguration,
                                          string &strError)
 {
+    // Lock state: the rule or name may be in use by an application of configurations
+    lock_guard<mutex> autoLock(getBlackboardMutex());
+
     return getConfigurableDomains()->clearApplicationRule(strDomain, strConfiguration, strError);
 }
 
-- 
2.43.0


From 48ea0eab44284544e054b88b168f0044c686cae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:43 +0000
Subject: [PATCH 42/43] fix: show the range of 8-bit integers as numbers

---
 parameter/IntegerParameterType.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parameter/IntegerParameterType.h b/parameter/IntegerParameterType.h
index e5f27f8..5905057 100644
--- a/parameter/IntegerParameterType.h
+++ b/parameter/IntegerParameterType.h
@@ -278,8 +278,8 @@ public:
 
         std::ostringstream stream;
         stream << "Signed: " << (isSigned ? "yes" : "no") << "\n"
-               << "Min: " << _min << "\n"
-               << "Max: " << _max << "\n";
+               << "Min: " << std::to_string(_min) << "\n"
+               << "Max: " << std::to_string(_max) << "\n";
 
         strResult += stream.str();
 
-- 
2.43.0


From d113b49923f96f0d615cc72c179d57e309297c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:43 +0000
Subject: [PATCH 43/43] fix: tell the description of an element through its
 handle

---
 parameter/ElementHandle.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parameter/ElementHandle.cpp b/parameter/ElementHandle.cpp
index fcedad0..82b9ecd 100644
--- a/parameter/ElementHandle.cpp
+++ b/parameter/ElementHandle.cpp
@@ -77,7 +77,11 @@ bool ElementHandle::isParameter() const
 
 string ElementHandle::getDescription() const
 {
-    return mElement.getDescription();
+    // The description of an instance belongs to its type
+    auto *instance = dynamic_cast<CInstanceConfigurableElement *>(&mElement);
+
+    return instance != nullptr ? instance->getTypeElement()->getDescription()
+                               : mElement.getDescription();
 }
 
 // Parameter features
-- 
2.43.0

