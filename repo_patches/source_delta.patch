From 20cbd252b50d2d1028970b3eba00d082f9808978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:10 +0000
Subject: [PATCH 001/121] fix: && and || with a float operand yield an integer
 0 or 1

The result was stored in the float member of an integer value, so e.g.
'.d64 1.5 && 1' emitted the bit pattern of 1.0.
---
 Core/Expression.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/Core/Expression.cpp b/Core/Expression.cpp
index cf2bff7..8290679 100644
--- a/Core/Expression.cpp
+++ b/Core/Expression.cpp
@@ -408,13 +408,13 @@ ExpressionValue ExpressionValue::operator&&(const ExpressionValue& other) const
 		result.intValue = intValue && other.intValue;
 		break;
 	case ExpressionValueCombination::FI:
-		result.floatValue = floatValue && other.intValue;
+		result.intValue = floatValue && other.intValue;
 		break;
 	case ExpressionValueCombination::IF:
-		result.floatValue = intValue && other.floatValue;
+		result.intValue = intValue && other.floatValue;
 		break;
 	case ExpressionValueCombination::FF:
-		result.floatValue = floatValue && other.floatValue;
+		result.intValue = floatValue && other.floatValue;
 		break;
 	default:
 		break;
@@ -434,13 +434,13 @@ ExpressionValue ExpressionValue::operator||(const ExpressionValue& other) const
 		result.intValue = intValue || other.intValue;
 		break;
 	case ExpressionValueCombination::FI:
-		result.floatValue = floatValue || other.intValue;
+		result.intValue = floatValue || other.intValue;
 		break;
 	case ExpressionValueCombination::IF:
-		result.floatValue = intValue || other.floatValue;
+		result.intValue = intValue || other.floatValue;
 		break;
 	case ExpressionValueCombination::FF:
-		result.floatValue = floatValue || other.floatValue;
+		result.intValue = floatValue || other.floatValue;
 		break;
 	default:
 		break;
-- 
2.43.0


From a7a5c4862296c11cc707ef07411bdb0b70efeb8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:45 +0000
Subject: [PATCH 002/121] fix: negating a float keeps IEEE semantics (-0.0)

Negation was computed as 0 - x, so -0.0 evaluated to +0.0.
---
 Core/Expression.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/Core/Expression.cpp b/Core/Expression.cpp
index 8290679..b00f62f 100644
--- a/Core/Expression.cpp
+++ b/Core/Expression.cpp
@@ -660,9 +660,10 @@ ExpressionValue ExpressionInternal::evaluate()
 	case OperatorType::Mod:
 		return children[0]->evaluate() % children[1]->evaluate();
 	case OperatorType::Neg:
-		val.type = ExpressionValueType::Integer;
-		val.intValue = 0;
-		return val - children[0]->evaluate();
+		val = children[0]->evaluate();
+		if (val.isFloat())
+			return ExpressionValue(-val.floatValue);
+		return ExpressionValue(INT64_C(0)) - val;
 	case OperatorType::LogNot:
 		return !children[0]->evaluate();
 	case OperatorType::BitNot:
-- 
2.43.0


From 0a8cc096f1bb7fc178067ba7b5989e73a5978fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:22:38 +0000
Subject: [PATCH 003/121] fix: report an unclosed file before anything is
 written

With -erroronwarning the 'File not closed' warning made the run fail, but
only after all output files had already been written.
---
 Core/Assembler.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/Core/Assembler.cpp b/Core/Assembler.cpp
index b1d006c..a666582 100644
--- a/Core/Assembler.cpp
+++ b/Core/Assembler.cpp
@@ -62,6 +62,13 @@ bool encodeAssembly(std::unique_ptr<CAssemblerCommand> content, SymbolData& symD
 
 	Allocations::validateOverlap();
 
+	// report this before anything is written, it may be treated as an error
+	if (!Global.memoryMode && g_fileManager->hasOpenFile())
+	{
+		Logger::queueError(Logger::Warning, "File not closed");
+		g_fileManager->closeFile();
+	}
+
 	Logger::printQueue();
 	if (Logger::hasError())
 	{
@@ -109,11 +116,7 @@ bool encodeAssembly(std::unique_ptr<CAssemblerCommand> content, SymbolData& symD
 	}
 
 	if (g_fileManager->hasOpenFile())
-	{
-		if (!Global.memoryMode)
-			Logger::printError(Logger::Warning, "File not closed");
 		g_fileManager->closeFile();
-	}
 
 	if (Logger::hasError())
 	{
-- 
2.43.0


From 45a9c72c58b9fc18bb7862a43c7b3899d5d5837b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:37:27 +0000
Subject: [PATCH 004/121] fix: reading a text file of one or two bytes does not
 loop forever

---
 Util/FileClasses.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Util/FileClasses.cpp b/Util/FileClasses.cpp
index 7c2c940..4b30629 100644
--- a/Util/FileClasses.cpp
+++ b/Util/FileClasses.cpp
@@ -725,6 +725,7 @@ bool TextFile::open(Mode mode, Encoding defaultEncoding)
 		size_ = long(fs::file_size(fileName));
 
 		stream.read(reinterpret_cast<char *>(numBuffer), 3);
+		stream.clear(); // the file may be shorter than a byte order mark
 		switch (numBuffer[0] | (numBuffer[1] << 8))
 		{
 		case 0xFFFE:
-- 
2.43.0


From b44b9f20acc98144e4452196be0aa512bd89e54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:44:47 +0000
Subject: [PATCH 005/121] fix: gathering the labels of a macro does not change
 the parser state

---
 Parser/Parser.cpp | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/Parser/Parser.cpp b/Parser/Parser.cpp
index 9f37dc2..98e3cdb 100644
--- a/Parser/Parser.cpp
+++ b/Parser/Parser.cpp
@@ -1,6 +1,8 @@
 #include "Parser/Parser.h"
 
+#include "Archs/ARM/Arm.h"
 #include "Archs/Architecture.h"
+#include "Archs/MIPS/Mips.h"
 #include "Commands/CAssemblerLabel.h"
 #include "Commands/CommandSequence.h"
 #include "Core/Common.h"
@@ -482,6 +484,10 @@ bool Parser::checkExpFuncDefinition()
 		return false;
 	}
 
+	// when parsing a macro, wait for the instantiation
+	if (initializingMacro)
+		return true;
+
 	// duplicate check
 	if (ExpressionFunctionHandler::instance().find(functionName))
 	{
@@ -748,7 +754,18 @@ std::unique_ptr<CAssemblerCommand> Parser::parseMacroCall()
 	if (macro.counter == 0)
 	{
 		initializingMacro = true;
-		
+
+		// directives in the macro change the parser state, but it's only
+		// supposed to change once they are actually instantiated
+		Architecture &architecture = Architecture::current();
+		const bool thumbMode = Arm.GetThumbMode();
+		const auto armVersion = Arm.getVersion();
+		const auto mipsVersion = Mips.GetVersion();
+		const bool ignoreDelay = Mips.GetIgnoreDelay();
+		const bool fixLoadDelay = Mips.GetFixLoadDelay();
+		const bool nocash = Global.nocash;
+		const bool relativeInclude = Global.relativeInclude;
+
 		// parse the short lived next command
 		macroTokenizer.init(macro.content);
 		Logger::suppressErrors();
@@ -757,7 +774,16 @@ std::unique_ptr<CAssemblerCommand> Parser::parseMacroCall()
 
 		macro.labels = macroLabels;
 		macroLabels.clear();
-		
+
+		Architecture::setCurrent(architecture);
+		Arm.SetThumbMode(thumbMode);
+		Arm.setVersion(armVersion);
+		Mips.SetVersion(mipsVersion);
+		Mips.SetIgnoreDelay(ignoreDelay);
+		Mips.SetFixLoadDelay(fixLoadDelay);
+		Global.nocash = nocash;
+		Global.relativeInclude = relativeInclude;
+
 		initializingMacro = false;
 	}
 
-- 
2.43.0


From 7d360032b3bafc63f152305f37fe6853504f3647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:45:34 +0000
Subject: [PATCH 006/121] fix: labels of a macro are determined for every
 invocation

---
 Parser/Parser.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/Parser/Parser.cpp b/Parser/Parser.cpp
index 98e3cdb..48626e8 100644
--- a/Parser/Parser.cpp
+++ b/Parser/Parser.cpp
@@ -749,9 +749,8 @@ std::unique_ptr<CAssemblerCommand> Parser::parseMacroCall()
 	if (initializingMacro)
 		return std::make_unique<DummyCommand>();
 
-	// the first time a macro is instantiated, it needs to be analyzed
-	// for labels
-	if (macro.counter == 0)
+	// every macro instance needs to be analyzed for labels, they
+	// can depend on the arguments
 	{
 		initializingMacro = true;
 
-- 
2.43.0


From e60d99adc09e65d7d2175d37e350ecdc85c9000b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:47:53 +0000
Subject: [PATCH 007/121] fix: macro arguments are not replaced again by other
 parameters

---
 Parser/Tokenizer.cpp | 14 ++++++++++----
 Parser/Tokenizer.h   |  1 +
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/Parser/Tokenizer.cpp b/Parser/Tokenizer.cpp
index fa781a8..35fabef 100644
--- a/Parser/Tokenizer.cpp
+++ b/Parser/Tokenizer.cpp
@@ -61,6 +61,11 @@ bool Tokenizer::processElement(TokenList::iterator& it)
 			const Identifier &identifier = (*it).identifierValue();
 			for (const Replacement& replacement: replacements)
 			{
+				// tokens that were inserted by a replacement are not replaced again,
+				// otherwise we'd be stuck in an endless replace loop
+				if ((*it).substituted)
+					break;
+
 				// if the identifier matches, add all of its tokens
 				if (replacement.identifier == identifier)
 				{
@@ -73,10 +78,10 @@ bool Tokenizer::processElement(TokenList::iterator& it)
 					(*it) = replacement.value[0];
 					tokens.insert(insertIt,replacement.value.begin()+1, replacement.value.end());
 
-					// If the value at this position didn't change, then just keep going.
-					// Otherwise we'd be stuck in an endless replace loop
-					if ((*it).type != TokenType::Identifier || identifier != (*it).identifierValue())
-						replaced = true;
+					for (auto newIt = it; newIt != insertIt; ++newIt)
+						newIt->substituted = true;
+
+					replaced = true;
 					break;
 				}
 			}
@@ -172,6 +177,7 @@ std::vector<Token> Tokenizer::getTokens(TokenizerPosition start, TokenizerPositi
 	{
 		Token tok = *it;
 		tok.checked = false;
+		tok.substituted = false;
 		result.push_back(tok);
 	}
 
diff --git a/Parser/Tokenizer.h b/Parser/Tokenizer.h
index 4913b14..94e6ed7 100644
--- a/Parser/Tokenizer.h
+++ b/Parser/Tokenizer.h
@@ -102,6 +102,7 @@ struct Token
 
 protected:
 	bool checked = false;
+	bool substituted = false;
 
 	using ValueType = std::variant<std::monostate, int64_t, double, StringLiteral, Identifier>;
 	ValueType value;
-- 
2.43.0


From 488016ac66b0e78c443e19d0f347b4a1c3d70714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:50:54 +0000
Subject: [PATCH 008/121] fix: comment characters in a string are part of an
 equ value

---
 Parser/Tokenizer.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/Parser/Tokenizer.cpp b/Parser/Tokenizer.cpp
index 35fabef..170f4fb 100644
--- a/Parser/Tokenizer.cpp
+++ b/Parser/Tokenizer.cpp
@@ -553,8 +553,18 @@ Token FileTokenizer::loadToken()
 
 	if (equActive)
 	{
-		while (pos < currentLine.size() && !isComment(currentLine,pos))
+		// comment characters inside of string or character literals are part of the value
+		char quote = 0;
+		while (pos < currentLine.size() && (quote != 0 || !isComment(currentLine,pos)))
+		{
+			if (quote != 0 && currentLine[pos] == '\\' && pos+1 < currentLine.size())
+				pos++;
+			else if (quote != 0 && currentLine[pos] == quote)
+				quote = 0;
+			else if (quote == 0 && (currentLine[pos] == '"' || currentLine[pos] == '\''))
+				quote = currentLine[pos];
 			pos++;
+		}
 
 		createTokenCurrentString(TokenType::EquValue,pos-linePos);
 
-- 
2.43.0


From f016e8cec2ab55259037f0c04a105694c2cdc806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:52:17 +0000
Subject: [PATCH 009/121] fix: static equs are looked up in the file a token
 belongs to

---
 Parser/Parser.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/Parser/Parser.cpp b/Parser/Parser.cpp
index 48626e8..45b6ab8 100644
--- a/Parser/Parser.cpp
+++ b/Parser/Parser.cpp
@@ -299,9 +299,16 @@ std::unique_ptr<CAssemblerCommand> Parser::parse(Tokenizer* tokenizer, bool virt
 
 	entries.push_back(entry);
 
+	// tokens are resolved in the scope of the file they are in
+	if (!virtualFile)
+		updateFileInfo();
+
 	std::unique_ptr<CAssemblerCommand> sequence = parseCommandSequence();
 	entries.pop_back();
 
+	if (!virtualFile && !entries.empty())
+		updateFileInfo();
+
 	return sequence;
 }
 
-- 
2.43.0


From cf49801a51539bc2275bcb7f9397275c4f2d1ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:53:47 +0000
Subject: [PATCH 010/121] fix: gathering the labels of a macro does not end the
 local label scope

---
 Parser/Parser.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Parser/Parser.cpp b/Parser/Parser.cpp
index 45b6ab8..6c1a83a 100644
--- a/Parser/Parser.cpp
+++ b/Parser/Parser.cpp
@@ -771,6 +771,7 @@ std::unique_ptr<CAssemblerCommand> Parser::parseMacroCall()
 		const bool fixLoadDelay = Mips.GetFixLoadDelay();
 		const bool nocash = Global.nocash;
 		const bool relativeInclude = Global.relativeInclude;
+		const int section = Global.Section;
 
 		// parse the short lived next command
 		macroTokenizer.init(macro.content);
@@ -789,6 +790,7 @@ std::unique_ptr<CAssemblerCommand> Parser::parseMacroCall()
 		Mips.SetFixLoadDelay(fixLoadDelay);
 		Global.nocash = nocash;
 		Global.relativeInclude = relativeInclude;
+		Global.Section = section;
 
 		initializingMacro = false;
 	}
-- 
2.43.0


From 721cf6ce44948ddd6c2be9e24ed73cb3d5627188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:43 +0000
Subject: [PATCH 011/121] fix: a label may be defined in both branches of a
 label dependent condition

---
 Commands/CAssemblerLabel.cpp | 12 +++++++-----
 Commands/CAssemblerLabel.h   |  1 -
 Core/SymbolTable.h           |  7 +++++++
 3 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/Commands/CAssemblerLabel.cpp b/Commands/CAssemblerLabel.cpp
index 3ca67dd..f8834c2 100644
--- a/Commands/CAssemblerLabel.cpp
+++ b/Commands/CAssemblerLabel.cpp
@@ -9,7 +9,6 @@
 
 CAssemblerLabel::CAssemblerLabel(const Identifier& name, const Identifier& originalName, std::optional<bool> thumbMode)
 {
-	this->defined = false;
 	this->label = nullptr;
 	
 	if (!Global.symbolTable.isLocalSymbol(name))	
@@ -43,19 +42,22 @@ CAssemblerLabel::CAssemblerLabel(const Identifier& name, const Identifier& origi
 bool CAssemblerLabel::Validate(const ValidateState &state)
 {
 	bool result = false;
-	if (!defined)
+	if (label->getDefinition() != this)
 	{
-		if (label->isDefined())
+		// a definition that isn't part of this pass anymore is in a conditional
+		// block that has been deselected
+		if (label->isDefined() && (label->getDefinition() == nullptr || label->getDefinitionPass() == state.passes))
 		{
 			Logger::queueError(Logger::Error, "Label \"%s\" already defined", label->getName());
 			return false;
 		}
 		
 		label->setDefined(true);
-		defined = true;
 		result = true;
 	}
-	
+
+	label->setDefinition(this,state.passes);
+
 	bool hasPhysicalValue = false;
 	int64_t virtualValue = 0;
 	int64_t physicalValue = 0;
diff --git a/Commands/CAssemblerLabel.h b/Commands/CAssemblerLabel.h
index 61121cf..e220949 100644
--- a/Commands/CAssemblerLabel.h
+++ b/Commands/CAssemblerLabel.h
@@ -20,7 +20,6 @@ public:
 private:
 	Expression labelValue;
 	std::shared_ptr<Label> label;
-	bool defined;
 };
 
 class CDirectiveFunction: public CAssemblerCommand
diff --git a/Core/SymbolTable.h b/Core/SymbolTable.h
index f640f51..c63dee8 100644
--- a/Core/SymbolTable.h
+++ b/Core/SymbolTable.h
@@ -28,6 +28,8 @@ struct SymbolKey
 
 bool operator<(SymbolKey const& lhs, SymbolKey const& rhs);
 
+class CAssemblerLabel;
+
 class Label
 {
 public:
@@ -42,6 +44,9 @@ public:
 	void setPhysicalValue(int64_t val) { physicalValue = val; physicalValueSet = true; }
 	bool isDefined() { return defined; };
 	void setDefined(bool b) { defined = b; };
+	const CAssemblerLabel *getDefinition() { return definition; }
+	int getDefinitionPass() { return definitionPass; }
+	void setDefinition(const CAssemblerLabel *command, int pass) { definition = command; definitionPass = pass; }
 	bool isData() { return data; };
 	void setIsData(bool b) { data = b; };
 	void setInfo(int inf) { info = inf; };
@@ -57,6 +62,8 @@ private:
 	int64_t physicalValue = 0;
 	bool physicalValueSet = false;
 	bool defined = false;
+	const CAssemblerLabel *definition = nullptr;
+	int definitionPass = 0;
 	bool data = false;
 	bool updateInfo = true;
 	int info = 0;
-- 
2.43.0


From a8e1a7d119e294008b4d1fcd4edd0acdd2e5938e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:05:52 +0000
Subject: [PATCH 012/121] fix: areas and regions starting at the same position
 do not share their bookkeeping

---
 Commands/CDirectiveArea.cpp | 10 +++++-----
 Core/Allocations.cpp        |  6 ++++++
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/Commands/CDirectiveArea.cpp b/Commands/CDirectiveArea.cpp
index 4580dd0..51f4563 100644
--- a/Commands/CDirectiveArea.cpp
+++ b/Commands/CDirectiveArea.cpp
@@ -114,17 +114,17 @@ void CDirectiveArea::Encode() const
 
 	if (fillExpression.isLoaded())
 	{
-		int64_t subAreaUsage = Allocations::getSubAreaUsage(fileID, position);
+		int64_t subAreaUsage = shared ? Allocations::getSubAreaUsage(fileID, position) : 0;
 		if (subAreaUsage != 0)
 			g_fileManager->advanceMemory(subAreaUsage);
 
 		unsigned char buffer[64];
 		memset(buffer,fillValue,64);
 		
-		size_t writeSize = areaSize-contentSize-subAreaUsage;
+		int64_t writeSize = areaSize-contentSize-subAreaUsage;
 		while (writeSize > 0)
 		{
-			size_t part = std::min<size_t>(64,writeSize);
+			size_t part = std::min<int64_t>(64,writeSize);
 			g_fileManager->write(buffer,part);
 			writeSize -= part;
 		}
@@ -150,7 +150,7 @@ void CDirectiveArea::writeTempData(TempData& tempData) const
 
 	if (fillExpression.isLoaded() && !shared)
 	{
-		int64_t subAreaUsage = Allocations::getSubAreaUsage(fileID, position);
+		int64_t subAreaUsage = shared ? Allocations::getSubAreaUsage(fileID, position) : 0;
 		if (subAreaUsage != 0)
 			tempData.writeLine(position+contentSize, tfm::format(".skip 0x%08llX",subAreaUsage));
 
@@ -169,7 +169,7 @@ void CDirectiveArea::writeSymData(SymbolData& symData) const
 
 	if (fillExpression.isLoaded())
 	{
-		int64_t subAreaUsage = Allocations::getSubAreaUsage(fileID, position);
+		int64_t subAreaUsage = shared ? Allocations::getSubAreaUsage(fileID, position) : 0;
 		symData.addData(position+contentSize+subAreaUsage,areaSize-contentSize-subAreaUsage,SymbolData::Data8);
 	}
 }
diff --git a/Core/Allocations.cpp b/Core/Allocations.cpp
index 920ef08..ace7419 100644
--- a/Core/Allocations.cpp
+++ b/Core/Allocations.cpp
@@ -25,6 +25,12 @@ void Allocations::clear()
 void Allocations::setArea(int64_t fileID, int64_t position, int64_t space, int64_t usage, bool usesFill, bool shared)
 {
 	Key key{ fileID, position };
+
+	// don't lose a region if it starts at the same position as an area around or inside of it
+	auto it = allocations.find(key);
+	if (it != allocations.end() && it->second.shared && !shared)
+		return;
+
 	allocations[key] = Usage{ space, usage, usesFill, shared };
 }
 
-- 
2.43.0


From 31fbe10794fbab82467850182bce0777fc5ce8cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:06:44 +0000
Subject: [PATCH 013/121] fix: .autoregion is placed in the requested range,
 not at the position of the directive

---
 Commands/CDirectiveArea.cpp | 6 +++---
 Core/Allocations.cpp        | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/Commands/CDirectiveArea.cpp b/Commands/CDirectiveArea.cpp
index 51f4563..92c9fdc 100644
--- a/Commands/CDirectiveArea.cpp
+++ b/Commands/CDirectiveArea.cpp
@@ -205,11 +205,11 @@ bool CDirectiveAutoRegion::Validate(const ValidateState &state)
 	// We need at least one full pass run before we can get an address.
 	if (state.passes < 1)
 	{
-		// Just calculate contentSize.
-		position = g_fileManager->getVirtualAddress();
+		// Just calculate contentSize, there is no allocated position yet.
+		position = -1;
 		content->applyFileInfo();
 		content->Validate(contentValidation);
-		contentSize = g_fileManager->getVirtualAddress() - position;
+		contentSize = g_fileManager->getVirtualAddress() - resetPosition;
 
 		g_fileManager->seekVirtual(resetPosition);
 		return true;
diff --git a/Core/Allocations.cpp b/Core/Allocations.cpp
index ace7419..4ed8080 100644
--- a/Core/Allocations.cpp
+++ b/Core/Allocations.cpp
@@ -77,7 +77,7 @@ bool Allocations::allocateSubArea(int64_t fileID, int64_t& position, int64_t min
 			continue;
 
 		// Can we use the position it had before?  Nudge up size if so.
-		if (keepPositions && position != -1 && position > possiblePosition)
+		if (keepPositions && position != -1 && position > possiblePosition && (maxRange == -1 || position <= maxRange))
 		{
 			int64_t offset = position - it.first.position;
 			if (it.second.space >= offset + size && offset != actualUsage)
-- 
2.43.0


From b710ca6f24da5f475ca786662088460edf638601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:26:05 +0000
Subject: [PATCH 014/121] fix: the content of a constant false block does not
 affect the code after it

Architecture, ARM/THUMB mode, .erroronwarning and similar directives as well
as the end of a local label scope took effect even if they were in a branch
that is not assembled, e.g. '.if 1 / .psx / .else / .n64 / .endif' ended up
assembling for the N64.
---
 Parser/DirectivesParser.cpp | 12 +++++--
 Parser/Parser.cpp           | 70 +++++++++++++++++++++++++++----------
 Parser/Parser.h             |  1 +
 3 files changed, 63 insertions(+), 20 deletions(-)

diff --git a/Parser/DirectivesParser.cpp b/Parser/DirectivesParser.cpp
index d20d401..acb502b 100644
--- a/Parser/DirectivesParser.cpp
+++ b/Parser/DirectivesParser.cpp
@@ -237,7 +237,7 @@ std::unique_ptr<CAssemblerCommand> parseDirectiveConditional(Parser& parser, int
 	}
 
 	parser.pushConditionalResult(condResult);
-	std::unique_ptr<CAssemblerCommand> ifBlock = parser.parseCommandSequence('.', {".else", ".elseif", ".elseifdef", ".elseifndef", ".endif"});
+	std::unique_ptr<CAssemblerCommand> ifBlock = parser.parseConditionalBlock({".else", ".elseif", ".elseifdef", ".elseifndef", ".endif"});
 	parser.popConditionalResult();
 
 	// update the file info so that else commands get the right line number
@@ -271,7 +271,7 @@ std::unique_ptr<CAssemblerCommand> parseDirectiveConditional(Parser& parser, int
 	parser.pushConditionalResult(elseResult);
 	if (identifier == ".else")
 	{
-		elseBlock = parser.parseCommandSequence('.', {".endif"});
+		elseBlock = parser.parseConditionalBlock({".endif"});
 
 		parser.eatToken();	// eat .endif
 	} else if (identifier == ".elseif")
@@ -554,6 +554,10 @@ std::unique_ptr<CAssemblerCommand> parseDirectiveErrorWarning(Parser& parser, in
 	if (!stringValue)
 		return nullptr;
 
+	// ignore it if it's inside a false block
+	if (!parser.isInsideTrueBlock())
+		return std::make_unique<DummyCommand>();
+
 	if (stringValue == "on")
 	{	
 		Logger::setErrorOnWarning(true);
@@ -639,6 +643,10 @@ std::unique_ptr<CAssemblerCommand> parseDirectiveDefineLabel(Parser& parser, int
 		return nullptr;
 	}
 
+	// don't define the label if it's inside a false block
+	if (!parser.isInsideTrueBlock())
+		return std::make_unique<DummyCommand>();
+
 	return std::make_unique<CAssemblerLabel>(identifier,Identifier(tok.getOriginalText()),value,thumbMode);
 }
 
diff --git a/Parser/Parser.cpp b/Parser/Parser.cpp
index 6c1a83a..7c62ec8 100644
--- a/Parser/Parser.cpp
+++ b/Parser/Parser.cpp
@@ -23,6 +23,40 @@ inline bool isPartOfList(const Identifier& value, const std::initializer_list<co
 	return false;
 }
 
+namespace
+{
+
+// The state outside of the parser that is changed by parsing directives and labels
+class ParserState
+{
+public:
+	void restore() const
+	{
+		Architecture::setCurrent(architecture);
+		Arm.SetThumbMode(thumbMode);
+		Arm.setVersion(armVersion);
+		Mips.SetVersion(mipsVersion);
+		Mips.SetIgnoreDelay(ignoreDelay);
+		Mips.SetFixLoadDelay(fixLoadDelay);
+		Global.nocash = nocash;
+		Global.relativeInclude = relativeInclude;
+		Global.Section = section;
+	}
+
+private:
+	Architecture &architecture = Architecture::current();
+	bool thumbMode = Arm.GetThumbMode();
+	ArmArchType armVersion = Arm.getVersion();
+	MipsArchType mipsVersion = Mips.GetVersion();
+	bool ignoreDelay = Mips.GetIgnoreDelay();
+	bool fixLoadDelay = Mips.GetFixLoadDelay();
+	bool nocash = Global.nocash;
+	bool relativeInclude = Global.relativeInclude;
+	int section = Global.Section;
+};
+
+}
+
 Parser::Parser()
 {
 	initializingMacro = false;
@@ -175,6 +209,18 @@ std::unique_ptr<CAssemblerCommand> Parser::parseCommandSequence(char indicator,
 	return sequence;
 }
 
+std::unique_ptr<CAssemblerCommand> Parser::parseConditionalBlock(const std::initializer_list<const char*> terminators)
+{
+	const ParserState state;
+	std::unique_ptr<CAssemblerCommand> block = parseCommandSequence('.', terminators);
+
+	// the content of a block that is trivially false doesn't affect what comes after it
+	if (!isInsideTrueBlock())
+		state.restore();
+
+	return block;
+}
+
 std::unique_ptr<CAssemblerCommand> Parser::parseFile(TextFile& file, bool virtualFile)
 {
 	FileTokenizer tokenizer;
@@ -763,15 +809,7 @@ std::unique_ptr<CAssemblerCommand> Parser::parseMacroCall()
 
 		// directives in the macro change the parser state, but it's only
 		// supposed to change once they are actually instantiated
-		Architecture &architecture = Architecture::current();
-		const bool thumbMode = Arm.GetThumbMode();
-		const auto armVersion = Arm.getVersion();
-		const auto mipsVersion = Mips.GetVersion();
-		const bool ignoreDelay = Mips.GetIgnoreDelay();
-		const bool fixLoadDelay = Mips.GetFixLoadDelay();
-		const bool nocash = Global.nocash;
-		const bool relativeInclude = Global.relativeInclude;
-		const int section = Global.Section;
+		const ParserState state;
 
 		// parse the short lived next command
 		macroTokenizer.init(macro.content);
@@ -782,15 +820,7 @@ std::unique_ptr<CAssemblerCommand> Parser::parseMacroCall()
 		macro.labels = macroLabels;
 		macroLabels.clear();
 
-		Architecture::setCurrent(architecture);
-		Arm.SetThumbMode(thumbMode);
-		Arm.setVersion(armVersion);
-		Mips.SetVersion(mipsVersion);
-		Mips.SetIgnoreDelay(ignoreDelay);
-		Mips.SetFixLoadDelay(fixLoadDelay);
-		Global.nocash = nocash;
-		Global.relativeInclude = relativeInclude;
-		Global.Section = section;
+		state.restore();
 
 		initializingMacro = false;
 	}
@@ -834,6 +864,10 @@ std::unique_ptr<CAssemblerCommand> Parser::parseLabel()
 		const Identifier &name = start.identifierValue();
 		eatTokens(2);
 		
+		// labels in blocks that are trivially false don't exist
+		if (!isInsideTrueBlock())
+			return std::make_unique<DummyCommand>();
+
 		if (initializingMacro)
 			macroLabels.insert(name);
 		
diff --git a/Parser/Parser.h b/Parser/Parser.h
index 9e14538..ac942b1 100644
--- a/Parser/Parser.h
+++ b/Parser/Parser.h
@@ -51,6 +51,7 @@ public:
 	bool parseIdentifier(Identifier& dest);
 	std::unique_ptr<CAssemblerCommand> parseCommand();
 	std::unique_ptr<CAssemblerCommand> parseCommandSequence(char indicator = 0, const std::initializer_list<const char*> terminators = {});
+	std::unique_ptr<CAssemblerCommand> parseConditionalBlock(const std::initializer_list<const char*> terminators);
 	std::unique_ptr<CAssemblerCommand> parseFile(TextFile& file, bool virtualFile = false);
 	std::unique_ptr<CAssemblerCommand> parseString(const std::string& text);
 	std::unique_ptr<CAssemblerCommand> parseTemplate(const std::string& text, const std::initializer_list<AssemblyTemplateArgument> variables = {});
-- 
2.43.0


From f4b573d3fae5db2d7d444e10a93dd6982b7d64c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:26:10 +0000
Subject: [PATCH 015/121] fix: files are not required by directives in a
 constant false block

.incbin, .loadtable, .importobj, .importlib and .loadelf reported an error for
a missing file (or loaded it) even if they were in a branch that is not
assembled. .include already ignored them.
---
 Archs/MIPS/MipsParser.cpp   |  8 ++++++++
 Parser/DirectivesParser.cpp | 12 ++++++++++++
 2 files changed, 20 insertions(+)

diff --git a/Archs/MIPS/MipsParser.cpp b/Archs/MIPS/MipsParser.cpp
index 13a779c..073badc 100644
--- a/Archs/MIPS/MipsParser.cpp
+++ b/Archs/MIPS/MipsParser.cpp
@@ -149,6 +149,10 @@ std::unique_ptr<CAssemblerCommand> parseDirectiveLoadElf(Parser& parser, int fla
 	if (!list[0].evaluateString(inputName,true))
 		return nullptr;
 
+	// don't load the file if it's inside a false block
+	if (!parser.isInsideTrueBlock())
+		return std::make_unique<DummyCommand>();
+
 	if (list.size() == 2)
 	{
 		if (!list[1].evaluateString(outputName,true))
@@ -171,6 +175,10 @@ std::unique_ptr<CAssemblerCommand> parseDirectiveImportObj(Parser& parser, int f
 	if (!list[0].evaluateString(inputName,true))
 		return nullptr;
 	
+	// don't load the file if it's inside a false block
+	if (!parser.isInsideTrueBlock())
+		return std::make_unique<DummyCommand>();
+
 	if (list.size() == 2)
 	{
 		Identifier ctorName;
diff --git a/Parser/DirectivesParser.cpp b/Parser/DirectivesParser.cpp
index acb502b..7e9efcb 100644
--- a/Parser/DirectivesParser.cpp
+++ b/Parser/DirectivesParser.cpp
@@ -89,6 +89,10 @@ std::unique_ptr<CAssemblerCommand> parseDirectiveIncbin(Parser& parser, int flag
 	if (!list[0].evaluateString(fileName,false))
 		return nullptr;
 
+	// don't load the file if it's inside a false block
+	if (!parser.isInsideTrueBlock())
+		return std::make_unique<DummyCommand>();
+
 	auto incbin = std::make_unique<CDirectiveIncbin>(fileName.path());
 	if (list.size() >= 2)
 		incbin->setStart(list[1]);
@@ -180,6 +184,10 @@ std::unique_ptr<CAssemblerCommand> parseDirectiveObjImport(Parser& parser, int f
 	if (!list[0].evaluateString(fileName,true))
 		return nullptr;
 
+	// don't load the file if it's inside a false block
+	if (!parser.isInsideTrueBlock())
+		return std::make_unique<DummyCommand>();
+
 	if (list.size() == 2)
 	{
 		Identifier ctorName;
@@ -345,6 +353,10 @@ std::unique_ptr<CAssemblerCommand> parseDirectiveTable(Parser& parser, int flags
 		encoding = getEncodingFromString(encodingName.string());
 	}
 
+	// don't load the file if it's inside a false block
+	if (!parser.isInsideTrueBlock())
+		return std::make_unique<DummyCommand>();
+
 	return std::make_unique<TableCommand>(fileName.path(),encoding);
 }
 
-- 
2.43.0


From 021daea2f7c1bb7c136b1a78cd376633156131d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:36:10 +0000
Subject: [PATCH 016/121] fix: ARM: reject ror #32 and shift amounts that only
 fit after truncation

---
 Archs/ARM/CArmInstruction.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Archs/ARM/CArmInstruction.cpp b/Archs/ARM/CArmInstruction.cpp
index ac2d0ce..770202b 100644
--- a/Archs/ARM/CArmInstruction.cpp
+++ b/Archs/ARM/CArmInstruction.cpp
@@ -76,21 +76,21 @@ bool CArmInstruction::Validate(const ValidateState &state)
 
 	if (Vars.Shift.UseShift && !Vars.Shift.ShiftByRegister)
 	{
-		if (!Vars.Shift.ShiftExpression.evaluateInteger(Vars.Shift.ShiftAmount))
+		int64_t num;
+		if (!Vars.Shift.ShiftExpression.evaluateInteger(num))
 		{
 			Logger::queueError(Logger::Error, "Invalid expression");
 			return false;
 		}
 
 		int mode = Vars.Shift.Type;
-		int num = Vars.Shift.ShiftAmount;
 
 		if (num == 0 && mode == ARM_SHIFT_LSR) mode = ARM_SHIFT_LSL;
 		else if (num == 0 && mode == ARM_SHIFT_ASR) mode = ARM_SHIFT_LSL;
 		else if (num == 0 && mode == ARM_SHIFT_ROR) mode = ARM_SHIFT_LSL;
 		else if (num == 32 && mode == ARM_SHIFT_LSR) num = 0;
 		else if (num == 32 && mode == ARM_SHIFT_ASR) num = 0;
-		else if (num == 32 && mode == ARM_SHIFT_LSL)
+		else if (num == 32 && (mode == ARM_SHIFT_LSL || mode == ARM_SHIFT_ROR))
 		{
 			Logger::queueError(Logger::Error, "Shift amount 0x%02X out of range",num);
 			return false;
@@ -112,7 +112,7 @@ bool CArmInstruction::Validate(const ValidateState &state)
 		}
 
 		Vars.Shift.FinalType = mode;
-		Vars.Shift.FinalShiftAmount = num;
+		Vars.Shift.FinalShiftAmount = (int) num;
 		Vars.Shift.UseFinal = true;
 	}
 
-- 
2.43.0


From e2072c8edf666c64d0d0d01925c1ba211ffe1218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:36:10 +0000
Subject: [PATCH 017/121] fix: ARM: range check coprocessor opcode and info
 operands

---
 Archs/ARM/CArmInstruction.cpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/Archs/ARM/CArmInstruction.cpp b/Archs/ARM/CArmInstruction.cpp
index 770202b..be04484 100644
--- a/Archs/ARM/CArmInstruction.cpp
+++ b/Archs/ARM/CArmInstruction.cpp
@@ -118,32 +118,39 @@ bool CArmInstruction::Validate(const ValidateState &state)
 
 	if (Opcode.flags & ARM_COPOP)
 	{
-		if (!Vars.CopData.CpopExpression.evaluateInteger(Vars.CopData.Cpop))
+		int64_t cpop;
+		if (!Vars.CopData.CpopExpression.evaluateInteger(cpop))
 		{
 			Logger::queueError(Logger::Error, "Invalid expression");
 			return false;
 		}
 
-		if (Vars.CopData.Cpop > 15)
+		// register transfers only have a 3 bit field
+		if (cpop < 0 || cpop > (Opcode.type == ARM_TYPE16 ? 7 : 15))
 		{
-			Logger::queueError(Logger::Error, "CP Opc number %02X too big",Vars.CopData.Cpop);
+			Logger::queueError(Logger::Error, "CP Opc number %02X out of range",cpop);
 			return false;
 		}
+
+		Vars.CopData.Cpop = (int) cpop;
 	}
 
 	if (Opcode.flags & ARM_COPINF)
 	{
-		if (!Vars.CopData.CpinfExpression.evaluateInteger(Vars.CopData.Cpinf))
+		int64_t cpinf;
+		if (!Vars.CopData.CpinfExpression.evaluateInteger(cpinf))
 		{
 			Logger::queueError(Logger::Error, "Invalid expression");
 			return false;
 		}
 
-		if (Vars.CopData.Cpinf > 7)
+		if (cpinf < 0 || cpinf > 7)
 		{
-			Logger::queueError(Logger::Error, "CP Inf number %02X too big",Vars.CopData.Cpinf);
+			Logger::queueError(Logger::Error, "CP Inf number %02X out of range",cpinf);
 			return false;
 		}
+
+		Vars.CopData.Cpinf = (int) cpinf;
 	}
 
 	if (Opcode.flags & ARM_DN)
-- 
2.43.0


From 00ea7b23941b606352501f86fb03425a0afca873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:36:10 +0000
Subject: [PATCH 018/121] fix: ARM: reject negative swi numbers

---
 Archs/ARM/CArmInstruction.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Archs/ARM/CArmInstruction.cpp b/Archs/ARM/CArmInstruction.cpp
index be04484..2471eb6 100644
--- a/Archs/ARM/CArmInstruction.cpp
+++ b/Archs/ARM/CArmInstruction.cpp
@@ -325,7 +325,7 @@ bool CArmInstruction::Validate(const ValidateState &state)
 		} else if (Opcode.flags & ARM_SWI)	// it's an interrupt, may need to shift it
 		{
 			bool needsShift = arch == AARCH_GBA || arch == AARCH_NDS;
-			if (needsShift && Vars.Immediate < 0xFF)
+			if (needsShift && Vars.Immediate >= 0 && Vars.Immediate < 0xFF)
 			{
 				Vars.Immediate <<= 16;
 				Vars.OriginalImmediate = Vars.Immediate;
-- 
2.43.0


From 2f34f058f6f354e9a51d7c590ad0fb95398083cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:36:10 +0000
Subject: [PATCH 019/121] fix: ARM: ldrt/strt/ldrbt/strbt without offset are
 post-indexed

---
 Archs/ARM/ArmOpcodes.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Archs/ARM/ArmOpcodes.cpp b/Archs/ARM/ArmOpcodes.cpp
index c3a3bca..617defc 100644
--- a/Archs/ARM/ArmOpcodes.cpp
+++ b/Archs/ARM/ArmOpcodes.cpp
@@ -152,19 +152,19 @@ const tArmOpcode ArmOpcodes[] = {
 	{ "ldrCb",	"d0,[n0],vm1S1",		0x06D00000,	ARM_TYPE9,	ARM_D|ARM_N|ARM_REGISTER|ARM_SIGN },
 	{ "ldrCb",	"d0,[n0],/#j\x0C",		0x04D00000,	ARM_TYPE9,	ARM_D|ARM_N|ARM_IMMEDIATE|ARM_ABS },
 	{ "strC",	"d0,[n0]!",				0x05A00000,	ARM_TYPE9,	ARM_D|ARM_N },
-	{ "strCt",	"d0,[n0]",				0x05A00000,	ARM_TYPE9,	ARM_D|ARM_N },
+	{ "strCt",	"d0,[n0]",				0x04A00000,	ARM_TYPE9,	ARM_D|ARM_N },
 	{ "strCt",	"d0,[n0],vm1S1",		0x06A00000,	ARM_TYPE9,	ARM_D|ARM_N|ARM_REGISTER|ARM_SIGN },
 	{ "strCt",	"d0,[n0],/#j\x0C",		0x04A00000,	ARM_TYPE9,	ARM_D|ARM_N|ARM_IMMEDIATE|ARM_ABS },
 	{ "ldrC",	"d0,[n0]!",				0x05B00000,	ARM_TYPE9,	ARM_D|ARM_N },
-	{ "ldrCt",	"d0,[n0]",				0x05B00000,	ARM_TYPE9,	ARM_D|ARM_N },
+	{ "ldrCt",	"d0,[n0]",				0x04B00000,	ARM_TYPE9,	ARM_D|ARM_N },
 	{ "ldrCt",	"d0,[n0],vm1S1",		0x06B00000,	ARM_TYPE9,	ARM_D|ARM_N|ARM_REGISTER|ARM_SIGN },
 	{ "ldrCt",	"d0,[n0],/#j\x0C",		0x04B00000,	ARM_TYPE9,	ARM_D|ARM_N|ARM_IMMEDIATE|ARM_ABS },
 	{ "strCb",	"d0,[n0]!",				0x05E00000,	ARM_TYPE9,	ARM_D|ARM_N },
-	{ "strCbt",	"d0,[n0]",				0x05E00000,	ARM_TYPE9,	ARM_D|ARM_N },
+	{ "strCbt",	"d0,[n0]",				0x04E00000,	ARM_TYPE9,	ARM_D|ARM_N },
 	{ "strCbt",	"d0,[n0],vm1S1",		0x06E00000,	ARM_TYPE9,	ARM_D|ARM_N|ARM_REGISTER|ARM_SIGN },
 	{ "strCbt",	"d0,[n0],/#j\x0C",		0x04E00000,	ARM_TYPE9,	ARM_D|ARM_N|ARM_IMMEDIATE|ARM_ABS },
 	{ "ldrCb",	"d0,[n0]!",				0x05F00000,	ARM_TYPE9,	ARM_D|ARM_N },
-	{ "ldrCbt",	"d0,[n0]",				0x05F00000,	ARM_TYPE9,	ARM_D|ARM_N },
+	{ "ldrCbt",	"d0,[n0]",				0x04F00000,	ARM_TYPE9,	ARM_D|ARM_N },
 	{ "ldrCbt",	"d0,[n0],vm1S1",		0x06F00000,	ARM_TYPE9,	ARM_D|ARM_N|ARM_REGISTER|ARM_SIGN },
 	{ "ldrCbt",	"d0,[n0],/#j\x0C",		0x04F00000,	ARM_TYPE9,	ARM_D|ARM_N|ARM_IMMEDIATE|ARM_ABS },
 	{ "ldrC",	"d0,[/#j\x0C]",			0x059F0000,	ARM_TYPE9,	ARM_D|ARM_LOAD|ARM_ABSIMM|ARM_IMMEDIATE },
-- 
2.43.0


From 684cb48c3db7d0887b24e628a05f1509a1714ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:36:10 +0000
Subject: [PATCH 020/121] fix: ARM: accept negative ldrd/strd offsets

---
 Archs/ARM/ArmOpcodes.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Archs/ARM/ArmOpcodes.cpp b/Archs/ARM/ArmOpcodes.cpp
index 617defc..a443e16 100644
--- a/Archs/ARM/ArmOpcodes.cpp
+++ b/Archs/ARM/ArmOpcodes.cpp
@@ -202,10 +202,10 @@ const tArmOpcode ArmOpcodes[] = {
 
 	{ "ldrCd",	"d0,[n0,m1]",			0x018000D0,	ARM_TYPE10,	ARM_D|ARM_N|ARM_REGISTER|ARM_M|ARM_ARM9 },
 	{ "ldrCd",	"d0,[n0]",				0x01C000D0,	ARM_TYPE10,	ARM_D|ARM_N|ARM_ARM9 },
-	{ "ldrCd",	"d0,[n0,/#j\x08]",		0x01C000D0,	ARM_TYPE10,	ARM_D|ARM_N|ARM_IMMEDIATE|ARM_ARM9 },
+	{ "ldrCd",	"d0,[n0,/#j\x08]",		0x01C000D0,	ARM_TYPE10,	ARM_D|ARM_N|ARM_IMMEDIATE|ARM_ABS|ARM_ARM9 },
 	{ "strCd",	"d0,[n0,m1]",			0x018000F0,	ARM_TYPE10,	ARM_D|ARM_N|ARM_REGISTER|ARM_M|ARM_ARM9 },
 	{ "strCd",	"d0,[n0]",				0x01C000F0,	ARM_TYPE10,	ARM_D|ARM_N|ARM_ARM9 },
-	{ "strCd",	"d0,[n0,/#j\x08]",		0x01C000F0,	ARM_TYPE10,	ARM_D|ARM_N|ARM_IMMEDIATE|ARM_ARM9 },
+	{ "strCd",	"d0,[n0,/#j\x08]",		0x01C000F0,	ARM_TYPE10,	ARM_D|ARM_N|ARM_IMMEDIATE|ARM_ABS|ARM_ARM9 },
 
 	{ "stmCA",	"/[n1/]W,/{R/}p",		0x08000000,	ARM_TYPE11,	ARM_STORE|ARM_N },
 	{ "ldmCA",	"/[n1/]W,/{R/}p",		0x08100000,	ARM_TYPE11,	ARM_LOAD|ARM_N },
-- 
2.43.0


From 9e902025be7c41a581fe2d4c6ae4493d0d8967a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:40:48 +0000
Subject: [PATCH 021/121] fix: ARM: strh to an absolute address used an
 uninitialized base register

---
 Archs/ARM/CArmInstruction.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Archs/ARM/CArmInstruction.cpp b/Archs/ARM/CArmInstruction.cpp
index 2471eb6..513aebc 100644
--- a/Archs/ARM/CArmInstruction.cpp
+++ b/Archs/ARM/CArmInstruction.cpp
@@ -613,7 +613,7 @@ void CArmInstruction::Encode() const
 		break;
 	case ARM_TYPE10:	// ARM.10: Halfword, Doubleword, and Signed Data Transfer
 		if (Vars.writeback) encoding |= (1 << 21);
-		encoding |= (Vars.rn.num << 16);
+		if (Opcode.flags & ARM_N) encoding |= (Vars.rn.num << 16);
 		encoding |= (Vars.rd.num << 12);
 		if ((Opcode.flags & ARM_SIGN) && !Vars.SignPlus) encoding &= ~(1 << 23);
 		if ((Opcode.flags & ARM_ABS) && Vars.negative) encoding &= ~(1 << 23);
-- 
2.43.0


From 9e64f763c892036785b4e1255fc3f7a02db874ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:02 +0000
Subject: [PATCH 022/121] fix: ARM: smlalbb and smlalbt were encoded as smlaltb
 and smlaltt

---
 Archs/ARM/ArmOpcodes.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Archs/ARM/ArmOpcodes.cpp b/Archs/ARM/ArmOpcodes.cpp
index a443e16..34e8033 100644
--- a/Archs/ARM/ArmOpcodes.cpp
+++ b/Archs/ARM/ArmOpcodes.cpp
@@ -128,7 +128,7 @@ const tArmOpcode ArmOpcodes[] = {
 	{ "smlaXYC","d1,m1,s1,n1",			0x01000080,	ARM_TYPE7,	ARM_D|ARM_M|ARM_S|ARM_N|ARM_X|ARM_Y|ARM_ARM9 },	
 	{ "smlawYC","d1,m1,s1,n1",			0x01200080,	ARM_TYPE7,	ARM_D|ARM_M|ARM_S|ARM_N|ARM_Y|ARM_ARM9 },	
 	{ "smulwYC","d1,m1,s1",				0x012000A0,	ARM_TYPE7,	ARM_D|ARM_M|ARM_S|ARM_Y|ARM_ARM9 },	
-	{ "smlalXYC","n1,d1,m1,s1",			0x014000A0,	ARM_TYPE7,	ARM_D|ARM_M|ARM_S|ARM_N|ARM_X|ARM_Y|ARM_ARM9 },	
+	{ "smlalXYC","n1,d1,m1,s1",			0x01400080,	ARM_TYPE7,	ARM_D|ARM_M|ARM_S|ARM_N|ARM_X|ARM_Y|ARM_ARM9 },	
 	{ "smulXYC","d1,m1,s1",				0x01600080,	ARM_TYPE7,	ARM_D|ARM_M|ARM_S|ARM_X|ARM_Y|ARM_ARM9 },	
 
 	{ "strC",	"d0,[n0]",				0x05800000,	ARM_TYPE9,	ARM_D|ARM_N },
-- 
2.43.0


From 3dc4b75bf9f2670d30f11e00955355ac8eb5d97f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:21 +0000
Subject: [PATCH 023/121] fix: ARM: accept signed register offsets in
 post-indexed str

---
 Archs/ARM/ArmOpcodes.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Archs/ARM/ArmOpcodes.cpp b/Archs/ARM/ArmOpcodes.cpp
index 34e8033..d5d3f31 100644
--- a/Archs/ARM/ArmOpcodes.cpp
+++ b/Archs/ARM/ArmOpcodes.cpp
@@ -133,8 +133,8 @@ const tArmOpcode ArmOpcodes[] = {
 
 	{ "strC",	"d0,[n0]",				0x05800000,	ARM_TYPE9,	ARM_D|ARM_N },
 	{ "strC",	"d0,[n0,vm1S1]W",		0x07800000,	ARM_TYPE9,	ARM_D|ARM_N|ARM_M|ARM_REGISTER|ARM_SIGN },
-	{ "strC",	"d0,[n0],/#j\x0C",		0x04800000,	ARM_TYPE9,	ARM_D|ARM_N|ARM_IMMEDIATE|ARM_ABS },
 	{ "strC",	"d0,[n0],vm1S1",		0x06800000,	ARM_TYPE9,	ARM_D|ARM_N|ARM_REGISTER|ARM_SIGN },
+	{ "strC",	"d0,[n0],/#j\x0C",		0x04800000,	ARM_TYPE9,	ARM_D|ARM_N|ARM_IMMEDIATE|ARM_ABS },
 	{ "strC",	"d0,[n0,/#j\x0C]W",		0x05800000,	ARM_TYPE9,	ARM_D|ARM_N|ARM_IMMEDIATE|ARM_ABS },
 	{ "ldrC",	"d0,[n0]",				0x05900000,	ARM_TYPE9,	ARM_D|ARM_N },
 	{ "ldrC",	"d0,[n0,vm1S1]W",		0x07900000,	ARM_TYPE9,	ARM_D|ARM_N|ARM_M|ARM_REGISTER|ARM_SIGN },
-- 
2.43.0


From 5422337ea7b718a73fa7896d495a1e5ebc397927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:43:19 +0000
Subject: [PATCH 024/121] fix: a hexadecimal prefix without digits is not a
 number

---
 Util/Util.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Util/Util.cpp b/Util/Util.cpp
index bbc6b1d..93c9601 100644
--- a/Util/Util.cpp
+++ b/Util/Util.cpp
@@ -58,6 +58,10 @@ bool stringToInt(const std::string& line, size_t start, size_t end, int64_t& res
 		{
 			base = 16;
 			start += 2;
+
+			// at least one digit is required
+			if (start >= end)
+				return false;
 		} else if (tolower(line[start+1]) == 'o')
 		{
 			base = 8;
-- 
2.43.0


From 9895dfae7ad411021b16ced0d0b299698300f25a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:47:46 +0000
Subject: [PATCH 025/121] fix: THUMB: ldr rd,[pc] used an uninitialized offset

---
 Archs/ARM/CThumbInstruction.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Archs/ARM/CThumbInstruction.cpp b/Archs/ARM/CThumbInstruction.cpp
index 5829555..475d181 100644
--- a/Archs/ARM/CThumbInstruction.cpp
+++ b/Archs/ARM/CThumbInstruction.cpp
@@ -272,7 +272,7 @@ void CThumbInstruction::Encode() const
 			break;
 		case THUMB_TYPE6:	// THUMB.6: load PC-relative
 			encoding |= (Vars.rd.num << 8);
-			encoding |= (Vars.Immediate << 0);
+			if (Opcode.flags & THUMB_IMMEDIATE) encoding |= (Vars.Immediate << 0);
 			break;
 		case THUMB_TYPE7:	// THUMB.7: load/store with register offset
 		case THUMB_TYPE8:	// THUMB.8: load/store sign-extended byte/halfword
-- 
2.43.0


From 0dc863567b55a3970188371884a2431601c90d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:47:47 +0000
Subject: [PATCH 026/121] fix: THUMB: reject registers that do not exist in
 push, pop, ldmia and stmia lists

---
 Archs/ARM/ArmParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Archs/ARM/ArmParser.cpp b/Archs/ARM/ArmParser.cpp
index 87cae19..c004eea 100644
--- a/Archs/ARM/ArmParser.cpp
+++ b/Archs/ARM/ArmParser.cpp
@@ -727,7 +727,7 @@ bool ArmParser::parseThumbParameters(Parser& parser, const tThumbOpcode& opcode,
 			CHECK(*encoding++ == tempRegister.num);
 			break;
 		case 'R':	// register list
-			value = encoding[0] | (encoding[1] << 8);
+			value = (unsigned char) encoding[0] | ((unsigned char) encoding[1] << 8);
 			CHECK(parseRegisterList(parser,vars.rlist,value));
 			encoding += 2;
 			break;
-- 
2.43.0


From 05d6285b1dfa96bed0a09548d2231cab8a2d69ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:19 +0000
Subject: [PATCH 027/121] fix: THUMB: blx to a target 4 MB ahead wrapped around
 instead of being rejected

---
 Archs/ARM/CThumbInstruction.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/Archs/ARM/CThumbInstruction.cpp b/Archs/ARM/CThumbInstruction.cpp
index 475d181..75c34fd 100644
--- a/Archs/ARM/CThumbInstruction.cpp
+++ b/Archs/ARM/CThumbInstruction.cpp
@@ -94,7 +94,12 @@ bool CThumbInstruction::Validate(const ValidateState &state)
 				}
 			}
 
-			int num = (int) (Vars.Immediate-RamPos-4);
+			// blx is relative to the word aligned pc
+			int64_t pc = RamPos+4;
+			if (Opcode.flags & THUMB_EXCHANGE)
+				pc &= ~INT64_C(3);
+
+			int num = (int) (Vars.Immediate-pc);
 			
 			if (num >= (1 << Vars.ImmediateBitLen) || num < (0-(1 << Vars.ImmediateBitLen)))
 			{
@@ -103,10 +108,6 @@ bool CThumbInstruction::Validate(const ValidateState &state)
 			}
 
 			Vars.Immediate = num >> 1;
-			if (Opcode.flags & THUMB_EXCHANGE)
-			{
-				Vars.Immediate += Vars.Immediate&1;
-			}
 		} else if (Opcode.flags & THUMB_WORD)
 		{
 			if (Vars.Immediate & 3)	// not allowed
-- 
2.43.0


From dde1497b1a452b8a7257c9ef90a8a331418d2282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:06:13 +0000
Subject: [PATCH 028/121] fix: PSP one-operand wsbh, wsbw, seb, bitrev and seh
 always operated on r0

---
 Archs/MIPS/MipsOpcodes.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/Archs/MIPS/MipsOpcodes.cpp b/Archs/MIPS/MipsOpcodes.cpp
index 6e00cd6..ca4176b 100644
--- a/Archs/MIPS/MipsOpcodes.cpp
+++ b/Archs/MIPS/MipsOpcodes.cpp
@@ -667,15 +667,15 @@ const tMipsOpcode MipsOpcodes[] = {
 //  hi |-------|-------|-------|-------|-------|-------|-------|-------|
 	// VVVVVV ----- ttttt ddddd VVVVV VVVVVV
 	{ "wsbh",	"d,t",			MIPS_ALLEGREX0(0x02),		MA_PSP,		0 },
-	{ "wsbh",	"d",			MIPS_ALLEGREX0(0x02),		MA_PSP,		0 },
+	{ "wsbh",	"d",			MIPS_ALLEGREX0(0x02),		MA_PSP,		MO_RDT },
 	{ "wsbw",	"d,t",			MIPS_ALLEGREX0(0x03),		MA_PSP,		0 },
-	{ "wsbw",	"d",			MIPS_ALLEGREX0(0x03),		MA_PSP,		0 },
+	{ "wsbw",	"d",			MIPS_ALLEGREX0(0x03),		MA_PSP,		MO_RDT },
 	{ "seb",	"d,t",			MIPS_ALLEGREX0(0x10),		MA_PSP,		0 },
-	{ "seb",	"d",			MIPS_ALLEGREX0(0x10),		MA_PSP,		0 },
+	{ "seb",	"d",			MIPS_ALLEGREX0(0x10),		MA_PSP,		MO_RDT },
 	{ "bitrev",	"d,t",			MIPS_ALLEGREX0(0x14),		MA_PSP,		0 },
-	{ "bitrev",	"d",			MIPS_ALLEGREX0(0x14),		MA_PSP,		0 },
+	{ "bitrev",	"d",			MIPS_ALLEGREX0(0x14),		MA_PSP,		MO_RDT },
 	{ "seh",	"d,t",			MIPS_ALLEGREX0(0x18),		MA_PSP,		0 },
-	{ "seh",	"d",			MIPS_ALLEGREX0(0x18),		MA_PSP,		0 },
+	{ "seh",	"d",			MIPS_ALLEGREX0(0x18),		MA_PSP,		MO_RDT },
 
 
 //     VFPU4: This one is a bit messy.
-- 
2.43.0


From 4b753e8c491f2499ee4897eced266f7791052530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:06:13 +0000
Subject: [PATCH 029/121] fix: MIPS branches 128 KB ahead wrapped around,
 misaligned branch targets were rounded down silently

---
 Archs/MIPS/CMipsInstruction.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/Archs/MIPS/CMipsInstruction.cpp b/Archs/MIPS/CMipsInstruction.cpp
index ac364a4..f6bedf5 100644
--- a/Archs/MIPS/CMipsInstruction.cpp
+++ b/Archs/MIPS/CMipsInstruction.cpp
@@ -125,11 +125,16 @@ bool CMipsInstruction::Validate(const ValidateState &state)
 		{
 			int num = (int) (immediateData.primary.value-RamPos-4);
 			
-			if (num > 0x20000 || num < (-0x20000))
+			if (num >= 0x20000 || num < (-0x20000))
 			{
 				Logger::queueError(Logger::Error, "Branch target %08X out of range",immediateData.primary.value);
 				return false;
 			}
+			if (num & 3)
+			{
+				Logger::queueError(Logger::Error, "Branch target %08X not aligned to word boundary",immediateData.primary.value);
+				return false;
+			}
 			immediateData.primary.value = num >> 2;
 		} else if (opcodeData.opcode.flags & (MO_RSP_HWOFFSET | MO_RSP_WOFFSET | MO_RSP_DWOFFSET | MO_RSP_QWOFFSET))
 		{
-- 
2.43.0


From 26dfb0b865a45390ee4ee7847661c2211534c158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:06:13 +0000
Subject: [PATCH 030/121] fix: MIPS ext and ins accepted bit fields that do not
 fit into the register

---
 Archs/MIPS/CMipsInstruction.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Archs/MIPS/CMipsInstruction.cpp b/Archs/MIPS/CMipsInstruction.cpp
index f6bedf5..7711bbf 100644
--- a/Archs/MIPS/CMipsInstruction.cpp
+++ b/Archs/MIPS/CMipsInstruction.cpp
@@ -190,7 +190,7 @@ bool CMipsInstruction::Validate(const ValidateState &state)
 			break;
 		case MipsImmediateType::Ext:
 		case MipsImmediateType::Ins:
-			if (immediateData.secondary.value > 32 || immediateData.secondary.value == 0)
+			if (immediateData.secondary.value <= 0 || immediateData.secondary.value > 32 - immediateData.primary.value)
 			{
 				Logger::queueError(Logger::Error, "Immediate value %02X out of range",immediateData.secondary.value);
 				return false;
-- 
2.43.0


From 90718e067c3ee0fac05a7d45748894a022258a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:08:21 +0000
Subject: [PATCH 031/121] fix: vcst sqrt(0.5) was never recognised

---
 Parser/Parser.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/Parser/Parser.cpp b/Parser/Parser.cpp
index 7c62ec8..43eca25 100644
--- a/Parser/Parser.cpp
+++ b/Parser/Parser.cpp
@@ -1006,7 +1006,16 @@ bool TokenSequenceParser::parse(Parser& parser, int& result)
 				}
 				
 				values++;
-			} 
+			} else if (type == TokenType::Float)
+			{
+				if (values == entry.values.end() || values->floatValue != token.floatValue())
+				{
+					valid = false;
+					break;
+				}
+
+				values++;
+			}
 		}
 
 		if (valid && values == entry.values.end())
-- 
2.43.0


From d10f40e6975dfa7a4083e37e2767a626efba5eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:13:18 +0000
Subject: [PATCH 032/121] fix: misaligned MIPS jump targets were rounded down
 silently

---
 Archs/MIPS/CMipsInstruction.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Archs/MIPS/CMipsInstruction.cpp b/Archs/MIPS/CMipsInstruction.cpp
index 7711bbf..5d5d106 100644
--- a/Archs/MIPS/CMipsInstruction.cpp
+++ b/Archs/MIPS/CMipsInstruction.cpp
@@ -120,6 +120,11 @@ bool CMipsInstruction::Validate(const ValidateState &state)
 			immediateData.primary.value = -immediateData.primary.value;
 		} else if (opcodeData.opcode.flags & MO_IPCA)	// absolute value >> 2
 		{
+			if (immediateData.primary.value & 3)
+			{
+				Logger::queueError(Logger::Error, "Jump target %08X not aligned to word boundary",immediateData.primary.value);
+				return false;
+			}
 			immediateData.primary.value = (immediateData.primary.value >> 2) & 0x3FFFFFF;
 		} else if (opcodeData.opcode.flags & MO_IPCR)	// relative 16 bit value
 		{
-- 
2.43.0


From b7c326f332d75cbe0e8c0ba544159838b19bef90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:13:18 +0000
Subject: [PATCH 033/121] fix: negative MIPS shift amounts and bit positions
 wrapped around silently

---
 Archs/MIPS/CMipsInstruction.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Archs/MIPS/CMipsInstruction.cpp b/Archs/MIPS/CMipsInstruction.cpp
index 5d5d106..91443a7 100644
--- a/Archs/MIPS/CMipsInstruction.cpp
+++ b/Archs/MIPS/CMipsInstruction.cpp
@@ -162,7 +162,10 @@ bool CMipsInstruction::Validate(const ValidateState &state)
 		unsigned int mask = (0xFFFFFFFF << (32-immediateBits)) >> (32-immediateBits);
 		int digits = (immediateBits+3) / 4;
 
-		if ((unsigned int)std::abs(immediateData.primary.value) > mask)
+		// shift amounts and bit positions can't be negative
+		bool isNegative = immediateData.primary.type == MipsImmediateType::Immediate5 && immediateData.primary.value < 0;
+
+		if (isNegative || (unsigned int)std::abs(immediateData.primary.value) > mask)
 		{
 			Logger::queueError(Logger::Error, "Immediate value 0x%0*X out of range",digits,immediateData.primary.value);
 			return false;
-- 
2.43.0


From 1dd84272f6aa6d33260f3a1ef350d85d624b0741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:46 +0000
Subject: [PATCH 034/121] fix: printing a function call expression read the
 function name as the wrong type, li a0,org() crashed

---
 Core/Expression.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Core/Expression.cpp b/Core/Expression.cpp
index b00f62f..9cc64f2 100644
--- a/Core/Expression.cpp
+++ b/Core/Expression.cpp
@@ -731,7 +731,7 @@ static std::string escapeString(const std::string& text)
 
 std::string ExpressionInternal::formatFunctionCall()
 {
-	std::string text = valueAs<StringLiteral>().string() + "(";
+	std::string text = valueAs<Identifier>().string() + "(";
 
 	for (size_t i = 0; i < children.size(); i++)
 	{
-- 
2.43.0


From 3c992864547898e0683e23c805f6245f7d986ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:46 +0000
Subject: [PATCH 035/121] fix: quotes and backslashes of strings passed to MIPS
 macros were not escaped

---
 Core/Expression.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Core/Expression.cpp b/Core/Expression.cpp
index 9cc64f2..865a9ca 100644
--- a/Core/Expression.cpp
+++ b/Core/Expression.cpp
@@ -726,7 +726,7 @@ static std::string escapeString(const std::string& text)
 	replaceAll(result,R"(\)",R"(\\)");
 	replaceAll(result,R"(")",R"(\")");
 
-	return tfm::format(R"("%s")",text);
+	return tfm::format(R"("%s")",result);
 }
 
 std::string ExpressionInternal::formatFunctionCall()
-- 
2.43.0


From 7b6012327dff79f755e9426307c28c5ba1c622ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:17:17 +0000
Subject: [PATCH 036/121] fix: floats passed to MIPS macros (li.s) were rounded
 to six significant digits

---
 Core/Expression.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/Core/Expression.cpp b/Core/Expression.cpp
index 865a9ca..7ebeb66 100644
--- a/Core/Expression.cpp
+++ b/Core/Expression.cpp
@@ -729,6 +729,16 @@ static std::string escapeString(const std::string& text)
 	return tfm::format(R"("%s")",result);
 }
 
+static std::string formatFloat(double value)
+{
+	// use the shortest text that is read as the same float again
+	std::string text = tfm::format("%g",value);
+	for (int precision = 7; precision <= 17 && strtod(text.c_str(),nullptr) != value; precision++)
+		text = tfm::format("%.*g",precision,value);
+
+	return text;
+}
+
 std::string ExpressionInternal::formatFunctionCall()
 {
 	std::string text = valueAs<Identifier>().string() + "(";
@@ -750,7 +760,7 @@ std::string ExpressionInternal::toString()
 	case OperatorType::Integer:
 		return tfm::format("%d",valueAs<int64_t>());
 	case OperatorType::Float:
-		return tfm::format("%g",valueAs<double>());
+		return formatFloat(valueAs<double>());
 	case OperatorType::Identifier:
 		return valueAs<Identifier>().string();
 	case OperatorType::String:
-- 
2.43.0


From 6d6eab9f8cac9ffa020a0989de82fcf277ffb66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:17:48 +0000
Subject: [PATCH 037/121] fix: the lwc2 and swc2 macros expected an FPU
 register, which those opcodes never take

---
 Archs/MIPS/MipsMacros.cpp | 16 +++++++++-------
 Archs/MIPS/MipsParser.cpp |  3 +++
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/Archs/MIPS/MipsMacros.cpp b/Archs/MIPS/MipsMacros.cpp
index 984cd76..df49619 100644
--- a/Archs/MIPS/MipsMacros.cpp
+++ b/Archs/MIPS/MipsMacros.cpp
@@ -591,7 +591,9 @@ std::unique_ptr<CAssemblerCommand> generateMipsMacroRotate(Parser& parser, MipsR
 /* Placeholders
 	i = i1 = 16 bit immediate
 	I = i2 = 32 bit immediate
-	s,t,d = registers */
+	s,t,d = registers
+	S = FPU register
+	G = PSX GTE data register */
 const MipsMacroDefinition mipsMacros[] = {
 	{ "abs",     "d,s",     &generateMipsMacroAbs,             MIPSM_W },
 	{ "dabs",    "d,s",     &generateMipsMacroAbs,             MIPSM_DW },
@@ -616,7 +618,7 @@ const MipsMacroDefinition mipsMacros[] = {
 	{ "lld",     "s,I",     &generateMipsMacroLoadStore,       MIPSM_LOAD|MIPSM_LLSCDW|MIPSM_UPPER|MIPSM_LOWER },
 	{ "lwc1",    "S,I",     &generateMipsMacroLoadStore,       MIPSM_LOAD|MIPSM_COP1|MIPSM_UPPER|MIPSM_LOWER },
 	{ "l.s",     "S,I",     &generateMipsMacroLoadStore,       MIPSM_LOAD|MIPSM_COP1|MIPSM_UPPER|MIPSM_LOWER },
-	{ "lwc2",    "S,I",     &generateMipsMacroLoadStore,       MIPSM_LOAD|MIPSM_COP2|MIPSM_UPPER|MIPSM_LOWER },
+	{ "lwc2",    "G,I",     &generateMipsMacroLoadStore,       MIPSM_LOAD|MIPSM_COP2|MIPSM_UPPER|MIPSM_LOWER },
 	{ "ldc1",    "S,I",     &generateMipsMacroLoadStore,       MIPSM_LOAD|MIPSM_DCOP1|MIPSM_UPPER|MIPSM_LOWER },
 	{ "l.d",     "S,I",     &generateMipsMacroLoadStore,       MIPSM_LOAD|MIPSM_DCOP1|MIPSM_UPPER|MIPSM_LOWER },
 	{ "ldc2",    "S,I",     &generateMipsMacroLoadStore,       MIPSM_LOAD|MIPSM_DCOP2|MIPSM_UPPER|MIPSM_LOWER },
@@ -632,7 +634,7 @@ const MipsMacroDefinition mipsMacros[] = {
 	{ "lld.u",   "s,I",     &generateMipsMacroLoadStore,       MIPSM_LOAD|MIPSM_LLSCDW|MIPSM_UPPER },
 	{ "lwc1.u",  "S,I",     &generateMipsMacroLoadStore,       MIPSM_LOAD|MIPSM_COP1|MIPSM_UPPER },
 	{ "l.s.u",   "S,I",     &generateMipsMacroLoadStore,       MIPSM_LOAD|MIPSM_COP1|MIPSM_UPPER },
-	{ "lwc2.u",  "S,I",     &generateMipsMacroLoadStore,       MIPSM_LOAD|MIPSM_COP2|MIPSM_UPPER },
+	{ "lwc2.u",  "G,I",     &generateMipsMacroLoadStore,       MIPSM_LOAD|MIPSM_COP2|MIPSM_UPPER },
 	{ "ldc1.u",  "S,I",     &generateMipsMacroLoadStore,       MIPSM_LOAD|MIPSM_DCOP1|MIPSM_UPPER },
 	{ "l.d.u",   "S,I",     &generateMipsMacroLoadStore,       MIPSM_LOAD|MIPSM_DCOP1|MIPSM_UPPER },
 	{ "ldc2.u",  "S,I",     &generateMipsMacroLoadStore,       MIPSM_LOAD|MIPSM_DCOP2|MIPSM_UPPER },
@@ -648,7 +650,7 @@ const MipsMacroDefinition mipsMacros[] = {
 	{ "lld.l",   "s,I",     &generateMipsMacroLoadStore,       MIPSM_LOAD|MIPSM_LLSCDW|MIPSM_LOWER },
 	{ "lwc1.l",  "S,I",     &generateMipsMacroLoadStore,       MIPSM_LOAD|MIPSM_COP1|MIPSM_LOWER },
 	{ "l.s.l",   "S,I",     &generateMipsMacroLoadStore,       MIPSM_LOAD|MIPSM_COP1|MIPSM_LOWER },
-	{ "lwc2.l",  "S,I",     &generateMipsMacroLoadStore,       MIPSM_LOAD|MIPSM_COP2|MIPSM_LOWER },
+	{ "lwc2.l",  "G,I",     &generateMipsMacroLoadStore,       MIPSM_LOAD|MIPSM_COP2|MIPSM_LOWER },
 	{ "ldc1.l",  "S,I",     &generateMipsMacroLoadStore,       MIPSM_LOAD|MIPSM_DCOP1|MIPSM_LOWER },
 	{ "l.d.l",   "S,I",     &generateMipsMacroLoadStore,       MIPSM_LOAD|MIPSM_DCOP1|MIPSM_LOWER },
 	{ "ldc2.l",  "S,I",     &generateMipsMacroLoadStore,       MIPSM_LOAD|MIPSM_DCOP2|MIPSM_LOWER },
@@ -670,7 +672,7 @@ const MipsMacroDefinition mipsMacros[] = {
 	{ "scd",     "s,I",     &generateMipsMacroLoadStore,       MIPSM_STORE|MIPSM_LLSCDW|MIPSM_UPPER|MIPSM_LOWER },
 	{ "swc1",    "S,I",     &generateMipsMacroLoadStore,       MIPSM_STORE|MIPSM_COP1|MIPSM_UPPER|MIPSM_LOWER },
 	{ "s.s",     "S,I",     &generateMipsMacroLoadStore,       MIPSM_STORE|MIPSM_COP1|MIPSM_UPPER|MIPSM_LOWER },
-	{ "swc2",    "S,I",     &generateMipsMacroLoadStore,       MIPSM_STORE|MIPSM_COP2|MIPSM_UPPER|MIPSM_LOWER },
+	{ "swc2",    "G,I",     &generateMipsMacroLoadStore,       MIPSM_STORE|MIPSM_COP2|MIPSM_UPPER|MIPSM_LOWER },
 	{ "sdc1",    "S,I",     &generateMipsMacroLoadStore,       MIPSM_STORE|MIPSM_DCOP1|MIPSM_UPPER|MIPSM_LOWER },
 	{ "s.d",     "S,I",     &generateMipsMacroLoadStore,       MIPSM_STORE|MIPSM_DCOP1|MIPSM_UPPER|MIPSM_LOWER },
 	{ "sdc2",    "S,I",     &generateMipsMacroLoadStore,       MIPSM_STORE|MIPSM_DCOP2|MIPSM_UPPER|MIPSM_LOWER },
@@ -683,7 +685,7 @@ const MipsMacroDefinition mipsMacros[] = {
 	{ "scd.u",   "s,I",     &generateMipsMacroLoadStore,       MIPSM_STORE|MIPSM_LLSCDW|MIPSM_UPPER },
 	{ "swc1.u",  "S,I",     &generateMipsMacroLoadStore,       MIPSM_STORE|MIPSM_COP1|MIPSM_UPPER },
 	{ "s.s.u",   "S,I",     &generateMipsMacroLoadStore,       MIPSM_STORE|MIPSM_COP1|MIPSM_UPPER },
-	{ "swc2.u",  "S,I",     &generateMipsMacroLoadStore,       MIPSM_STORE|MIPSM_COP2|MIPSM_UPPER },
+	{ "swc2.u",  "G,I",     &generateMipsMacroLoadStore,       MIPSM_STORE|MIPSM_COP2|MIPSM_UPPER },
 	{ "sdc1.u",  "S,I",     &generateMipsMacroLoadStore,       MIPSM_STORE|MIPSM_DCOP1|MIPSM_UPPER },
 	{ "s.d.u",   "S,I",     &generateMipsMacroLoadStore,       MIPSM_STORE|MIPSM_DCOP1|MIPSM_UPPER },
 	{ "sdc2.u",  "S,I",     &generateMipsMacroLoadStore,       MIPSM_STORE|MIPSM_DCOP2|MIPSM_UPPER },
@@ -696,7 +698,7 @@ const MipsMacroDefinition mipsMacros[] = {
 	{ "scd.l",   "s,I",     &generateMipsMacroLoadStore,       MIPSM_STORE|MIPSM_LLSCDW|MIPSM_LOWER },
 	{ "swc1.l",  "S,I",     &generateMipsMacroLoadStore,       MIPSM_STORE|MIPSM_COP1|MIPSM_LOWER },
 	{ "s.s.l",   "S,I",     &generateMipsMacroLoadStore,       MIPSM_STORE|MIPSM_COP1|MIPSM_LOWER },
-	{ "swc2.l",  "S,I",     &generateMipsMacroLoadStore,       MIPSM_STORE|MIPSM_COP2|MIPSM_LOWER },
+	{ "swc2.l",  "G,I",     &generateMipsMacroLoadStore,       MIPSM_STORE|MIPSM_COP2|MIPSM_LOWER },
 	{ "sdc1.l",  "S,I",     &generateMipsMacroLoadStore,       MIPSM_STORE|MIPSM_DCOP1|MIPSM_LOWER },
 	{ "s.d.l",   "S,I",     &generateMipsMacroLoadStore,       MIPSM_STORE|MIPSM_DCOP1|MIPSM_LOWER },
 	{ "sdc2.l",  "S,I",     &generateMipsMacroLoadStore,       MIPSM_STORE|MIPSM_DCOP2|MIPSM_LOWER },
diff --git a/Archs/MIPS/MipsParser.cpp b/Archs/MIPS/MipsParser.cpp
index 073badc..afdecae 100644
--- a/Archs/MIPS/MipsParser.cpp
+++ b/Archs/MIPS/MipsParser.cpp
@@ -1610,6 +1610,9 @@ bool MipsParser::parseMacroParameters(Parser& parser, const MipsMacroDefinition&
 		case 'S':	// register
 			CHECK(parseFpuRegister(parser,registers.frs));
 			break;
+		case 'G':	// gte data register
+			CHECK(parsePsxCop2DataRegister(parser,registers.frs));
+			break;
 		case 'i':	// primary immediate
 			CHECK(parseImmediate(parser,immediate.primary.expression));
 			break;
-- 
2.43.0


From 3c1319d8f8d069089dd76c037d02f53f494217ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:17:48 +0000
Subject: [PATCH 038/121] fix: the unaligned load and store macros failed
 without an offset

---
 Archs/MIPS/MipsMacros.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Archs/MIPS/MipsMacros.cpp b/Archs/MIPS/MipsMacros.cpp
index df49619..c93dad5 100644
--- a/Archs/MIPS/MipsMacros.cpp
+++ b/Archs/MIPS/MipsMacros.cpp
@@ -272,7 +272,7 @@ std::unique_ptr<CAssemblerCommand> generateMipsMacroLoadUnaligned(Parser& parser
 	return createMacro(parser,macroText,flags, {
 			{ "%rs%",		registers.grs.name.string() },
 			{ "%rd%",		registers.grd.name.string() },
-			{ "%off%",		immediates.primary.expression.toString() },
+			{ "%off%",		(flags & MIPSM_IMM) ? immediates.primary.expression.toString() : "0" },
 			{ "%op%",		op },
 			{ "%size%",    size },
 	});
@@ -325,7 +325,7 @@ std::unique_ptr<CAssemblerCommand> generateMipsMacroStoreUnaligned(Parser& parse
 	return createMacro(parser,macroText,flags, {
 			{ "%rs%",		registers.grs.name.string() },
 			{ "%rd%",		registers.grd.name.string() },
-			{ "%off%",		immediates.primary.expression.toString() },
+			{ "%off%",		(flags & MIPSM_IMM) ? immediates.primary.expression.toString() : "0" },
 			{ "%op%",		op },
 			{ "%size%",	size },
 	});
-- 
2.43.0


From 3695aedbf145dbcafda90a2eb28c637b1ff0a8c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:18:36 +0000
Subject: [PATCH 039/121] fix: set macros with a large immediate overwrote the
 source if it is also the destination

---
 Archs/MIPS/MipsMacros.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/Archs/MIPS/MipsMacros.cpp b/Archs/MIPS/MipsMacros.cpp
index c93dad5..202ae3d 100644
--- a/Archs/MIPS/MipsMacros.cpp
+++ b/Archs/MIPS/MipsMacros.cpp
@@ -435,8 +435,8 @@ std::unique_ptr<CAssemblerCommand> generateMipsMacroSet(Parser& parser, MipsRegi
 	{
 		const char* templateImmediateEqNe = R"(
 			.if %imm% & ~0xFFFF
-				li		%rd%,%imm%
-				xor		%rd%,%rs%,%rd%
+				li		%temp%,%imm%
+				xor		%rd%,%rs%,%temp%
 			.else
 				xori	%rd%,%rs%,%imm%
 			.endif
@@ -466,11 +466,11 @@ std::unique_ptr<CAssemblerCommand> generateMipsMacroSet(Parser& parser, MipsRegi
 			.if %revcmp% && %imm% == 0
 				slt%u%	%rd%,r0,%rs%
 			.elseif %revcmp%
-				li		%rd%,%imm%
-				slt%u%	%rd%,%rd%,%rs%
+				li		%temp%,%imm%
+				slt%u%	%rd%,%temp%,%rs%
 			.elseif (%imm% < -0x8000) || (%imm% >= 0x8000)
-				li		%rd%,%imm%
-				slt%u%	%rd%,%rs%,%rd%
+				li		%temp%,%imm%
+				slt%u%	%rd%,%rs%,%temp%
 			.else
 				slti%u%	%rd%,%rs%,%imm%
 			.endif
@@ -506,6 +506,7 @@ std::unique_ptr<CAssemblerCommand> generateMipsMacroSet(Parser& parser, MipsRegi
 			{ "%rd%",		registers.grd.name.string() },
 			{ "%rs%",		registers.grs.name.string() },
 			{ "%rt%",		registers.grt.name.string() },
+			{ "%temp%",	registers.grd.num == registers.grs.num ? "r1" : registers.grd.name.string() },
 			{ "%imm%",		immediates.secondary.expression.toString() },
 	});
 }
-- 
2.43.0


From ff43e4b3ea548c3d55af7e82e9045d4007aeb7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:18:48 +0000
Subject: [PATCH 040/121] fix: rol and ror with an amount outside of 0..31
 failed instead of using its lower five bits

---
 Archs/MIPS/MipsMacros.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/Archs/MIPS/MipsMacros.cpp b/Archs/MIPS/MipsMacros.cpp
index 202ae3d..fb7e38c 100644
--- a/Archs/MIPS/MipsMacros.cpp
+++ b/Archs/MIPS/MipsMacros.cpp
@@ -521,11 +521,11 @@ std::unique_ptr<CAssemblerCommand> generateMipsMacroRotate(Parser& parser, MipsR
 	if (psp && immediate)
 	{
 		const char* templatePspImmediate = R"(
-			.if %amount% != 0
+			.if (%amount%&31) != 0
 				.if %left%
-					rotr	%rd%,%rs%,-%amount%&31
+					rotr	%rd%,%rs%,-(%amount%)&31
 				.else
-					rotr	%rd%,%rs%,%amount%
+					rotr	%rd%,%rs%,%amount%&31
 				.endif
 			.else
 				move	%rd%,%rs%
@@ -548,13 +548,13 @@ std::unique_ptr<CAssemblerCommand> generateMipsMacroRotate(Parser& parser, MipsR
 	} else if (immediate)
 	{
 		const char* templateImmediate = R"(
-			.if %amount% != 0
+			.if (%amount%&31) != 0
 				.if %left%
-					srl	r1,%rs%,-%amount%&31
-					sll	%rd%,%rs%,%amount%
+					srl	r1,%rs%,-(%amount%)&31
+					sll	%rd%,%rs%,%amount%&31
 				.else
-					sll	r1,%rs%,-%amount%&31
-					srl	%rd%,%rs%,%amount%
+					sll	r1,%rs%,-(%amount%)&31
+					srl	%rd%,%rs%,%amount%&31
 				.endif
 				or		%rd%,%rd%,r1
 			.else
-- 
2.43.0


From 9cbaf714f4f3d87bd3888675e4f4a97e3fe0be81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:22:52 +0000
Subject: [PATCH 041/121] fix: org() in the operand of a MIPS macro was
 evaluated at a later instruction of the expansion

---
 Core/Expression.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Core/Expression.cpp b/Core/Expression.cpp
index 7ebeb66..6751cd6 100644
--- a/Core/Expression.cpp
+++ b/Core/Expression.cpp
@@ -497,7 +497,10 @@ void ExpressionInternal::replaceMemoryPos(const Identifier& identifierName)
 		}
 	}
 
-	if (type == OperatorType::MemoryPos)
+	// org() without a parameter is the same as '.'
+	bool isOrg = type == OperatorType::FunctionCall && children.empty() && valueAs<Identifier>() == "org";
+
+	if (type == OperatorType::MemoryPos || isOrg)
 	{
 		type = OperatorType::Identifier;
 		value = identifierName;
-- 
2.43.0


From 82753a206c0bd4bfea59337bdbd5b0d6d90662b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:30 +0000
Subject: [PATCH 042/121] fix: data after a MIPS load or branch did not end its
 load delay or delay slot

---
 Commands/CDirectiveData.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Commands/CDirectiveData.cpp b/Commands/CDirectiveData.cpp
index d93c793..9b0506e 100644
--- a/Commands/CDirectiveData.cpp
+++ b/Commands/CDirectiveData.cpp
@@ -310,6 +310,7 @@ void CDirectiveData::encodeNormal()
 
 bool CDirectiveData::Validate(const ValidateState &state)
 {
+	Architecture::current().NextSection();
 	position = g_fileManager->getVirtualAddress();
 
 	size_t oldSize = getDataSize();
-- 
2.43.0


From 2bf7bf91ca72c28a7c53c5d7bc1e2f738d9ecbf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:49 +0000
Subject: [PATCH 043/121] fix: load delay warnings for registers that are only
 written and for coprocessor registers

---
 Archs/MIPS/CMipsInstruction.cpp | 11 ++++-------
 Archs/MIPS/MipsOpcodes.cpp      |  6 +++---
 2 files changed, 7 insertions(+), 10 deletions(-)

diff --git a/Archs/MIPS/CMipsInstruction.cpp b/Archs/MIPS/CMipsInstruction.cpp
index 91443a7..2c161fa 100644
--- a/Archs/MIPS/CMipsInstruction.cpp
+++ b/Archs/MIPS/CMipsInstruction.cpp
@@ -219,16 +219,13 @@ bool CMipsInstruction::Validate(const ValidateState &state)
 	{
 		bool fix = false;
 
-		if (registerData.grd.num != -1 && registerData.grd.num == Mips.GetLoadDelayRegister())
-		{
-			Logger::queueError(Logger::Warning, "register %S may not be available due to load delay",registerData.grd.name);
-			fix = true;
-		} else if (registerData.grs.num != -1 && registerData.grs.num == Mips.GetLoadDelayRegister())
+		// grd is only ever written, and r0 and coprocessor registers are not subject to the load delay
+		if (registerData.grs.num > 0 && registerData.grs.num == Mips.GetLoadDelayRegister())
 		{
 			Logger::queueError(Logger::Warning, "register %S may not be available due to load delay",registerData.grs.name);
 			fix = true;
-		} else if (registerData.grt.num != -1 && registerData.grt.num == Mips.GetLoadDelayRegister()
-			&& !(opcodeData.opcode.flags & MO_IGNORERTD))
+		} else if (registerData.grt.num > 0 && registerData.grt.num == Mips.GetLoadDelayRegister()
+			&& registerData.grt.type == MipsRegisterType::Normal && !(opcodeData.opcode.flags & MO_IGNORERTD))
 		{
 			Logger::queueError(Logger::Warning, "register %S may not be available due to load delay",registerData.grt.name);
 			fix = true;
diff --git a/Archs/MIPS/MipsOpcodes.cpp b/Archs/MIPS/MipsOpcodes.cpp
index ca4176b..aa5c23f 100644
--- a/Archs/MIPS/MipsOpcodes.cpp
+++ b/Archs/MIPS/MipsOpcodes.cpp
@@ -341,7 +341,7 @@ const tMipsOpcode MipsOpcodes[] = {
 //  10 |FUNCT* |  ---  |  ---  |  ---  |  ---  |  ---  |  ---  |  ---  | 10..17
 //  11 |  ---  |  ---  |  ---  |  ---  |  ---  |  ---  |  ---  |  ---  | 18..1F
 //  hi |-------|-------|-------|-------|-------|-------|-------|-------|
-	{ "mfc0",	"t,z",		MIPS_COP0(0x00),				MA_MIPS1|MA_EXRSP,	0 },
+	{ "mfc0",	"t,z",		MIPS_COP0(0x00),				MA_MIPS1|MA_EXRSP,	MO_IGNORERTD },
 	{ "mfc0",	"t,Rz",		MIPS_COP0(0x00),				MA_RSP,		0 },
 	{ "dmfc0",	"t,z",		MIPS_COP0(0x01),				MA_MIPS3,	MO_64BIT },
 	{ "mtc0",	"t,z",		MIPS_COP0(0x04),				MA_MIPS1|MA_EXRSP,	0 },
@@ -561,9 +561,9 @@ const tMipsOpcode MipsOpcodes[] = {
 //  11 |  ---  |  ---  |  ---  |  ---  |  ---  |  ---  |  ---  |  ---  |
 //  hi |-------|-------|-------|-------|-------|-------|-------|-------|
 
-	{ "mfc2",	"t,gs",			MIPS_COP2(0x00),			MA_PSX,		0 },
+	{ "mfc2",	"t,gs",			MIPS_COP2(0x00),			MA_PSX,		MO_IGNORERTD },
 	{ "mfc2",	"t,RsRo",		MIPS_COP2(0x00),			MA_RSP,		0 },
-	{ "cfc2",	"t,gc",			MIPS_COP2(0x02),			MA_PSX,		0 },
+	{ "cfc2",	"t,gc",			MIPS_COP2(0x02),			MA_PSX,		MO_IGNORERTD },
 	{ "cfc2",	"t,Rc",			MIPS_COP2(0x02),			MA_RSP,		0 },
 	{ "mtc2",	"t,gs",			MIPS_COP2(0x04),			MA_PSX,		0 },
 	{ "mtc2",	"t,RsRo",		MIPS_COP2(0x04),			MA_RSP,		0 },
-- 
2.43.0


From 746e377d0ce60764cde533fa35a41766eaeca32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:49 +0000
Subject: [PATCH 044/121] fix: a macro with multiple opcodes in a delay slot
 was not warned about

---
 Archs/MIPS/MipsMacros.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Archs/MIPS/MipsMacros.cpp b/Archs/MIPS/MipsMacros.cpp
index fb7e38c..913a2df 100644
--- a/Archs/MIPS/MipsMacros.cpp
+++ b/Archs/MIPS/MipsMacros.cpp
@@ -20,13 +20,14 @@ MipsMacroCommand::MipsMacroCommand(std::unique_ptr<CAssemblerCommand> content, i
 bool MipsMacroCommand::Validate(const ValidateState &state)
 {
 	int64_t memoryPos = g_fileManager->getVirtualAddress();
+	bool inDelaySlot = Mips.GetDelaySlot();
 	content->applyFileInfo();
 	bool result = content->Validate(state);
 	int64_t newMemoryPos = g_fileManager->getVirtualAddress();
 
 	applyFileInfo();
 
-	if (!IgnoreLoadDelay && Mips.GetDelaySlot() && (newMemoryPos-memoryPos) > 4
+	if (!IgnoreLoadDelay && inDelaySlot && (newMemoryPos-memoryPos) > 4
 		&& (macroFlags & MIPSM_DONTWARNDELAYSLOT) == 0)
 	{
 		Logger::queueError(Logger::Warning, "Macro with multiple opcodes used inside a delay slot");
-- 
2.43.0


From d6a9878a34826413908bae3a9fb69278b9c4c1f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:30 +0000
Subject: [PATCH 045/121] fix: a branch that gets a nop from .fixloaddelay was
 encoded relative to the nop

---
 Archs/MIPS/CMipsInstruction.cpp | 49 +++++++++++++++++----------------
 1 file changed, 25 insertions(+), 24 deletions(-)

diff --git a/Archs/MIPS/CMipsInstruction.cpp b/Archs/MIPS/CMipsInstruction.cpp
index 2c161fa..41a3216 100644
--- a/Archs/MIPS/CMipsInstruction.cpp
+++ b/Archs/MIPS/CMipsInstruction.cpp
@@ -81,6 +81,31 @@ bool CMipsInstruction::Validate(const ValidateState &state)
 		return false;
 	}
 
+	// check load delay
+	if (Mips.hasLoadDelay() && Mips.GetLoadDelay() && !IgnoreLoadDelay)
+	{
+		bool fix = false;
+
+		// grd is only ever written, and r0 and coprocessor registers are not subject to the load delay
+		if (registerData.grs.num > 0 && registerData.grs.num == Mips.GetLoadDelayRegister())
+		{
+			Logger::queueError(Logger::Warning, "register %S may not be available due to load delay",registerData.grs.name);
+			fix = true;
+		} else if (registerData.grt.num > 0 && registerData.grt.num == Mips.GetLoadDelayRegister()
+			&& registerData.grt.type == MipsRegisterType::Normal && !(opcodeData.opcode.flags & MO_IGNORERTD))
+		{
+			Logger::queueError(Logger::Warning, "register %S may not be available due to load delay",registerData.grt.name);
+			fix = true;
+		}
+
+		if (Mips.GetFixLoadDelay() && fix)
+		{
+			addNop = true;
+			RamPos += 4;
+			Logger::queueError(Logger::Notice, "added nop to ensure correct behavior");
+		}
+	}
+
 	// check immediates
 	if (immediateData.primary.type != MipsImmediateType::None)
 	{
@@ -214,30 +239,6 @@ bool CMipsInstruction::Validate(const ValidateState &state)
 		}
 	}
 
-	// check load delay
-	if (Mips.hasLoadDelay() && Mips.GetLoadDelay() && !IgnoreLoadDelay)
-	{
-		bool fix = false;
-
-		// grd is only ever written, and r0 and coprocessor registers are not subject to the load delay
-		if (registerData.grs.num > 0 && registerData.grs.num == Mips.GetLoadDelayRegister())
-		{
-			Logger::queueError(Logger::Warning, "register %S may not be available due to load delay",registerData.grs.name);
-			fix = true;
-		} else if (registerData.grt.num > 0 && registerData.grt.num == Mips.GetLoadDelayRegister()
-			&& registerData.grt.type == MipsRegisterType::Normal && !(opcodeData.opcode.flags & MO_IGNORERTD))
-		{
-			Logger::queueError(Logger::Warning, "register %S may not be available due to load delay",registerData.grt.name);
-			fix = true;
-		}
-
-		if (Mips.GetFixLoadDelay() && fix)
-		{
-			addNop = true;
-			Logger::queueError(Logger::Notice, "added nop to ensure correct behavior");
-		}
-	}
-
 	if ((opcodeData.opcode.flags & MO_NODELAYSLOT) && Mips.GetDelaySlot() && !IgnoreLoadDelay)
 	{
 		Logger::queueError(Logger::Error, "This instruction can't be in a delay slot");
-- 
2.43.0


From c402fe40b7bd1b585a5c76c294a740ca202d2426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:03 +0000
Subject: [PATCH 046/121] fix: SuperH instructions accepted indirect registers
 in place of plain ones

---
 Archs/SuperH/ShParser.cpp | 14 ++++++++++----
 Archs/SuperH/ShParser.h   |  1 +
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/Archs/SuperH/ShParser.cpp b/Archs/SuperH/ShParser.cpp
index 813d6cb..b4c674a 100644
--- a/Archs/SuperH/ShParser.cpp
+++ b/Archs/SuperH/ShParser.cpp
@@ -82,7 +82,13 @@ bool ShParser::parseRegisterTable(Parser& parser, ShRegisterValue& dest, const S
 bool ShParser::parseRegister(Parser& parser, ShRegisterValue& dest)
 {
 	dest.type = ShRegisterType::Normal;
-	return parseRegisterTable(parser, dest, shRegisters, 32);
+	return parseRegisterTable(parser, dest, shRegisters, 16);
+}
+
+bool ShParser::parseIndirectRegister(Parser& parser, ShRegisterValue& dest)
+{
+	dest.type = ShRegisterType::Normal;
+	return parseRegisterTable(parser, dest, &shRegisters[16], 16);
 }
 
 bool ShParser::parseImmediate(Parser& parser, Expression& dest)
@@ -95,7 +101,7 @@ bool ShParser::parseImmediate(Parser& parser, Expression& dest)
 		parser.eatToken();
 
 	ShRegisterValue tempValue;
-	bool isRegister = parseRegister(parser,tempValue);
+	bool isRegister = parseRegister(parser,tempValue) || parseIndirectRegister(parser,tempValue);
 	parser.getTokenizer()->setPosition(pos);
 
 	if (isRegister)
@@ -254,11 +260,11 @@ bool ShParser::parseParameters(Parser& parser, const tShOpcode& opcode)
 				return false;
 			if (*encoding == 't')
 			{
-				CHECK(parseRegister(parser,registers.grt));
+				CHECK(parseIndirectRegister(parser,registers.grt));
 			}
 			else if (*encoding == 's')
 			{
-				CHECK(parseRegister(parser,registers.grs));
+				CHECK(parseIndirectRegister(parser,registers.grs));
 			}
 			else if (*encoding == '(' || *encoding == '-') // "mov.* r0,@(i4,t)", "mov.* s,@-t" and the others
 			{
diff --git a/Archs/SuperH/ShParser.h b/Archs/SuperH/ShParser.h
index 466d63e..4c519cf 100644
--- a/Archs/SuperH/ShParser.h
+++ b/Archs/SuperH/ShParser.h
@@ -23,6 +23,7 @@ public:
 private:
 	bool parseRegisterTable(Parser& parser, ShRegisterValue& dest, const ShRegisterDescriptor* table, size_t count);
 	bool parseRegister(Parser& parser, ShRegisterValue& dest);
+	bool parseIndirectRegister(Parser& parser, ShRegisterValue& dest);
 	bool parseImmediate(Parser& parser, Expression& dest);
 
 	bool decodeOpcode(Parser& parser, const tShOpcode& opcode);
-- 
2.43.0


From c79515f8716b5c4938560568e73685d1f80e34ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:06 +0000
Subject: [PATCH 047/121] fix: SuperH branches rejected the farthest backward
 target and any target above 0x80000000

---
 Archs/SuperH/CShInstruction.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Archs/SuperH/CShInstruction.cpp b/Archs/SuperH/CShInstruction.cpp
index 2b1fc64..d245bf6 100644
--- a/Archs/SuperH/CShInstruction.cpp
+++ b/Archs/SuperH/CShInstruction.cpp
@@ -100,9 +100,9 @@ bool CShInstruction::Validate(const ValidateState &state)
 		{
 			int range    = maxImmediate * (opflags & SH_IMM32 ? 4 : 2);
 			int hiRange  = (opflags & SH_IMMSIGNED) ?  (range/2) : range;
-			int lowRange = (opflags & SH_IMMSIGNED) ? -(range/2) : 0;
+			int lowRange = (opflags & SH_IMMSIGNED) ? -(range/2)-1 : 0;
 
-			int64_t num = (int64_t) (immediateData.primary.value - immRelAddr);
+			int64_t num = (int32_t) (immediateData.primary.value - immRelAddr);
 
 			if (num > hiRange || num < lowRange)
 			{
-- 
2.43.0


From 9fb010f074df36d0358c4feceaf477f60f5f901a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:29 +0000
Subject: [PATCH 048/121] fix: SuperH instructions truncated negative
 displacements and immediates below -128

---
 Archs/SuperH/CShInstruction.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Archs/SuperH/CShInstruction.cpp b/Archs/SuperH/CShInstruction.cpp
index d245bf6..e748188 100644
--- a/Archs/SuperH/CShInstruction.cpp
+++ b/Archs/SuperH/CShInstruction.cpp
@@ -120,7 +120,11 @@ bool CShInstruction::Validate(const ValidateState &state)
 		unsigned int mask = (0xFFFFFFFF << (32-immediateBits)) >> (32-immediateBits);
 		int digits = (immediateBits+3) / 4;
 
-		if ((unsigned int)std::abs(immediateData.primary.value) > mask)
+		// displacements from a register are unsigned
+		bool isSigned = (opflags & SH_IMMSIGNED) || opcodeData.opcode.format == SHFMT_I || opcodeData.opcode.format == SHFMT_NI;
+		int minImmediate = isSigned ? -(1 << (immediateBits-1)) : 0;
+
+		if (immediateData.primary.value < minImmediate || immediateData.primary.value > (int)mask)
 		{
 			Logger::queueError(Logger::Error, "Immediate value 0x%0*X out of range",digits,immediateData.primary.value);
 			return false;
-- 
2.43.0


From a209b48b124d74395fcdabcf64607c253af8364b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:32 +0000
Subject: [PATCH 049/121] fix: the SuperH parser read beyond the end of the
 operand encoding

---
 Archs/SuperH/ShParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Archs/SuperH/ShParser.cpp b/Archs/SuperH/ShParser.cpp
index b4c674a..dd967ef 100644
--- a/Archs/SuperH/ShParser.cpp
+++ b/Archs/SuperH/ShParser.cpp
@@ -217,7 +217,7 @@ bool ShParser::parseParameters(Parser& parser, const tShOpcode& opcode)
 			while (*fReg)
 			{
 				size_t length = strlen(*fReg);
-				if (memcmp(*fReg, encoding, length) == 0)
+				if (strncmp(*fReg, encoding, length) == 0)
 				{
 					if (token.type != TokenType::Identifier)
 						break;
-- 
2.43.0


From ead57a721195f4ced3cf2e78447f80c77975f6b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:34 +0000
Subject: [PATCH 050/121] fix: max of negative floats returned the smallest
 positive float

---
 Core/ExpressionFunctions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Core/ExpressionFunctions.cpp b/Core/ExpressionFunctions.cpp
index 51b3c92..5912144 100644
--- a/Core/ExpressionFunctions.cpp
+++ b/Core/ExpressionFunctions.cpp
@@ -286,7 +286,7 @@ ExpressionValue expFuncMax(const Identifier &funcName, const std::vector<Express
 	double floatMax, floatCur;
 	int64_t intMax, intCur;
 
-	floatCur = floatMax = std::numeric_limits<double>::min();
+	floatCur = floatMax = std::numeric_limits<double>::lowest();
 	intCur = intMax = std::numeric_limits<int64_t>::min();
 	bool isInt = true;
 
-- 
2.43.0


From c8ade757dae48cde927d0ffc86c3eae442b3cc0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:42 +0000
Subject: [PATCH 051/121] fix: substr with a start position outside of the
 string crashed

---
 Core/ExpressionFunctions.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Core/ExpressionFunctions.cpp b/Core/ExpressionFunctions.cpp
index 5912144..d82de23 100644
--- a/Core/ExpressionFunctions.cpp
+++ b/Core/ExpressionFunctions.cpp
@@ -365,6 +365,12 @@ ExpressionValue expFuncSubstr(const Identifier &funcName, const std::vector<Expr
 	GET_PARAM(parameters,1,start);
 	GET_PARAM(parameters,2,count);
 
+	if (start < 0 || start > (int64_t)source->size())
+	{
+		Logger::queueError(Logger::Error, "%s: Invalid start position %d", funcName, start);
+		return ExpressionValue();
+	}
+
 	return ExpressionValue(source->string().substr((size_t)start,(size_t)count));
 }
 
-- 
2.43.0


From 3a7fa8dfc1779400ecc0039e34c0c252df822069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:50 +0000
Subject: [PATCH 052/121] fix: filesize of a missing file returned -1 without
 an error

---
 Core/ExpressionFunctions.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/Core/ExpressionFunctions.cpp b/Core/ExpressionFunctions.cpp
index d82de23..762e2c5 100644
--- a/Core/ExpressionFunctions.cpp
+++ b/Core/ExpressionFunctions.cpp
@@ -121,7 +121,14 @@ ExpressionValue expFuncFileSize(const Identifier &funcName, const std::vector<Ex
 	auto fullName = getFullPathName(fileName->path());
 
 	std::error_code error;
-	return ExpressionValue(static_cast<int64_t>(fs::file_size(fullName, error)));
+	auto size = fs::file_size(fullName, error);
+	if (error)
+	{
+		Logger::queueError(Logger::Error, "Could not get size of %s",*fileName);
+		return ExpressionValue();
+	}
+
+	return ExpressionValue(static_cast<int64_t>(size));
 }
 
 ExpressionValue expFuncToString(const Identifier &funcName, const std::vector<ExpressionValue>& parameters)
-- 
2.43.0


From 0d82fc486a2345dd3565231370fbec72a1d2f546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:57 +0000
Subject: [PATCH 053/121] fix: readascii from beyond the end of the file
 returned an empty string

---
 Core/ExpressionFunctions.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Core/ExpressionFunctions.cpp b/Core/ExpressionFunctions.cpp
index 762e2c5..2be995e 100644
--- a/Core/ExpressionFunctions.cpp
+++ b/Core/ExpressionFunctions.cpp
@@ -556,7 +556,7 @@ ExpressionValue expFuncReadAscii(const Identifier &funcName, const std::vector<E
 	}
 
 	file.seekg(start);
-	if (file.eof() || file.fail())
+	if (file.eof() || file.fail() || start > totalSize)
 	{
 		Logger::queueError(Logger::Error, "Invalid offset 0x%08X of %s", start, *fileName);
 		return ExpressionValue();
@@ -573,7 +573,7 @@ ExpressionValue expFuncReadAscii(const Identifier &funcName, const std::vector<E
 		file.read(buffer, bytesToRead);
 		if (file.fail())
 		{
-			Logger::queueError(Logger::Error, "Failed to read %d byte(s) from offset 0x%08X of %s", bytesToRead, *fileName);
+			Logger::queueError(Logger::Error, "Failed to read %d byte(s) from offset 0x%08X of %s", bytesToRead, start+progress, *fileName);
 			return ExpressionValue();
 		}
 
-- 
2.43.0


From 56d0781a4bc16c60713b21f852462989b6385131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:05 +0000
Subject: [PATCH 054/121] fix: int and round of floats beyond the 64 bit range
 returned an undefined value

---
 Core/ExpressionFunctions.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/Core/ExpressionFunctions.cpp b/Core/ExpressionFunctions.cpp
index 2be995e..4eaca4e 100644
--- a/Core/ExpressionFunctions.cpp
+++ b/Core/ExpressionFunctions.cpp
@@ -163,6 +163,12 @@ ExpressionValue expFuncToHex(const Identifier &funcName, const std::vector<Expre
 	return ExpressionValue(tfm::format("%0*X",digits,value));
 }
 
+// returns whether the float can be converted to a 64 bit integer, which is never the case for NaN
+static bool isIntegerRange(double value)
+{
+	return value >= -9223372036854775808.0 && value < 9223372036854775808.0;
+}
+
 ExpressionValue expFuncInt(const Identifier &funcName, const std::vector<ExpressionValue>& parameters)
 {
 	ExpressionValue result;
@@ -173,6 +179,11 @@ ExpressionValue expFuncInt(const Identifier &funcName, const std::vector<Express
 		result.intValue = parameters[0].intValue;
 		break;
 	case ExpressionValueType::Float:
+		if (!isIntegerRange(parameters[0].floatValue))
+		{
+			Logger::queueError(Logger::Error, "%s: Value out of range", funcName);
+			return result;
+		}
 		result.intValue = (int64_t) parameters[0].floatValue;
 		break;
 	default:
@@ -193,6 +204,11 @@ ExpressionValue expFuncRound(const Identifier &funcName, const std::vector<Expre
 		result.intValue = parameters[0].intValue;
 		break;
 	case ExpressionValueType::Float:
+		if (!isIntegerRange(parameters[0].floatValue))
+		{
+			Logger::queueError(Logger::Error, "%s: Value out of range", funcName);
+			return result;
+		}
 		result.intValue = llround(parameters[0].floatValue);
 		break;
 	default:
-- 
2.43.0


From fc12f8de33ae62b2aae70c27d24530c1fc819bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:14 +0000
Subject: [PATCH 055/121] fix: org of an undefined label returned 0 without an
 error

---
 Core/ExpressionFunctions.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Core/ExpressionFunctions.cpp b/Core/ExpressionFunctions.cpp
index 4eaca4e..618dba3 100644
--- a/Core/ExpressionFunctions.cpp
+++ b/Core/ExpressionFunctions.cpp
@@ -634,6 +634,12 @@ ExpressionValue expLabelFuncOrg(const Identifier &funcName, const std::vector<st
 		if (!label)
 			return ExpressionValue();
 
+		if (!label->isDefined())
+		{
+			Logger::queueError(Logger::Error, "Undefined label \"%s\"", label->getName());
+			return ExpressionValue();
+		}
+
 		return ExpressionValue(parameters.front()->getValue());
 	}
 
-- 
2.43.0


From 9765dff708a75d4ba51bfd31a90e2f8b83fe576a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:37 +0000
Subject: [PATCH 056/121] fix: outputname() did not return the name as written
 in the source

---
 Archs/MIPS/MipsElfFile.cpp   | 2 ++
 Commands/CDirectiveFile.cpp  | 3 +++
 Core/ExpressionFunctions.cpp | 2 +-
 Core/FileManager.h           | 6 ++++++
 4 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/Archs/MIPS/MipsElfFile.cpp b/Archs/MIPS/MipsElfFile.cpp
index 27013bc..9d3e7bd 100644
--- a/Archs/MIPS/MipsElfFile.cpp
+++ b/Archs/MIPS/MipsElfFile.cpp
@@ -266,6 +266,7 @@ void MipsElfFile::save()
 DirectiveLoadMipsElf::DirectiveLoadMipsElf(const fs::path& fileName)
 {
 	file = std::make_shared<MipsElfFile>();
+	file->setWrittenName(fileName);
 
 	this->inputName = getFullPathName(fileName);
 	if (!file->load(this->inputName,this->inputName))
@@ -280,6 +281,7 @@ DirectiveLoadMipsElf::DirectiveLoadMipsElf(const fs::path& fileName)
 DirectiveLoadMipsElf::DirectiveLoadMipsElf(const fs::path& inputName, const fs::path& outputName)
 {
 	file = std::make_shared<MipsElfFile>();
+	file->setWrittenName(outputName);
 
 	this->inputName = getFullPathName(inputName);
 	this->outputName = getFullPathName(outputName);
diff --git a/Commands/CDirectiveFile.cpp b/Commands/CDirectiveFile.cpp
index c2c4ba1..706abcd 100644
--- a/Commands/CDirectiveFile.cpp
+++ b/Commands/CDirectiveFile.cpp
@@ -27,6 +27,7 @@ void CDirectiveFile::initOpen(const fs::path& fileName, int64_t memory)
 	fs::path fullName = getFullPathName(fileName);
 
 	file = std::make_shared<GenericAssemblerFile>(fullName,memory,false);
+	file->setWrittenName(fileName);
 	g_fileManager->addFile(file);
 
 	updateSection(++Global.Section);
@@ -38,6 +39,7 @@ void CDirectiveFile::initCreate(const fs::path& fileName, int64_t memory)
 	fs::path fullName = getFullPathName(fileName);
 
 	file = std::make_shared<GenericAssemblerFile>(fullName,memory,true);
+	file->setWrittenName(fileName);
 	g_fileManager->addFile(file);
 
 	updateSection(++Global.Section);
@@ -50,6 +52,7 @@ void CDirectiveFile::initCopy(const fs::path& inputName, const fs::path& outputN
 	fs::path fullOutputName = getFullPathName(outputName);
 	
 	file = std::make_shared<GenericAssemblerFile>(fullOutputName,fullInputName,memory);
+	file->setWrittenName(outputName);
 	g_fileManager->addFile(file);
 
 	updateSection(++Global.Section);
diff --git a/Core/ExpressionFunctions.cpp b/Core/ExpressionFunctions.cpp
index 618dba3..3a5be91 100644
--- a/Core/ExpressionFunctions.cpp
+++ b/Core/ExpressionFunctions.cpp
@@ -100,7 +100,7 @@ ExpressionValue expFuncOutputName(const Identifier &funcName, const std::vector<
 		return ExpressionValue();
 	}
 
-	std::string value = file->getFileName().u8string();
+	std::string value = file->getWrittenName().u8string();
 	return ExpressionValue(value);
 }
 
diff --git a/Core/FileManager.h b/Core/FileManager.h
index 255e7b5..1f9836f 100644
--- a/Core/FileManager.h
+++ b/Core/FileManager.h
@@ -29,6 +29,12 @@ public:
 	virtual void beginSymData(SymbolData& symData) { };
 	virtual void endSymData(SymbolData& symData) { };
 	virtual const fs::path& getFileName() = 0;
+
+	// the name as it was written in the directive that opened the file
+	const fs::path& getWrittenName() const { return writtenName; }
+	void setWrittenName(const fs::path& name) { writtenName = name; }
+private:
+	fs::path writtenName;
 };
 
 class GenericAssemblerFile: public AssemblerFile
-- 
2.43.0


From b9b1ebf95306e6d0ad0e607762d11c309c13ce4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:35 +0000
Subject: [PATCH 057/121] fix: a constant operand of ?: that is not selected
 was still evaluated

---
 Core/Expression.cpp          | 20 ++++++++++++++++++++
 Core/ExpressionFunctions.cpp |  8 ++++----
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/Core/Expression.cpp b/Core/Expression.cpp
index 6751cd6..5d2858a 100644
--- a/Core/Expression.cpp
+++ b/Core/Expression.cpp
@@ -570,6 +570,26 @@ bool ExpressionInternal::simplify(bool inUnknownOrFalseBlock)
 		break;
 	}
 
+	// only the selected operand of a conditional may be evaluated
+	if (type == OperatorType::TertiaryIf)
+	{
+		if (!children[0]->simplify(inUnknownOrFalseBlock))
+		{
+			children[1]->simplify(true);
+			children[2]->simplify(true);
+			return false;
+		}
+
+		ExpressionValue zero(INT64_C(0));
+		auto selected = std::move(children[children[0]->evaluate() == zero ? 2 : 1]);
+		type = selected->type;
+		value = std::move(selected->value);
+		fileNum = selected->fileNum;
+		section = selected->section;
+		children = std::move(selected->children);
+		return simplify(inUnknownOrFalseBlock);
+	}
+
 	// check if the same applies to all children
 	bool canSimplify = true;
 	for (size_t i = 0; i < children.size(); i++)
diff --git a/Core/ExpressionFunctions.cpp b/Core/ExpressionFunctions.cpp
index 3a5be91..8cdc072 100644
--- a/Core/ExpressionFunctions.cpp
+++ b/Core/ExpressionFunctions.cpp
@@ -713,20 +713,20 @@ const ExpressionFunctionEntry expressionFunctions[] = {
 	{ "tostring",      &expFuncToString,       1, 1,   ExpFuncSafety::Safe},
 	{ "tohex",         &expFuncToHex,          1, 2,   ExpFuncSafety::Safe},
 
-	{ "int",           &expFuncInt,            1, 1,   ExpFuncSafety::Safe},
+	{ "int",           &expFuncInt,            1, 1,   ExpFuncSafety::ConditionalUnsafe},
 	{ "float",         &expFuncFloat,          1, 1,   ExpFuncSafety::Safe},
 	{ "frac",          &expFuncFrac,           1, 1,   ExpFuncSafety::Safe},
 	{ "abs",           &expFuncAbs,            1, 1,   ExpFuncSafety::Safe},
-	{ "round",         &expFuncRound,          1, 1,   ExpFuncSafety::Safe},
+	{ "round",         &expFuncRound,          1, 1,   ExpFuncSafety::ConditionalUnsafe},
 	{ "min",           &expFuncMin,            1, 256, ExpFuncSafety::Safe},
 	{ "max",           &expFuncMax,            1, 256, ExpFuncSafety::Safe},
 
 	{ "strlen",        &expFuncStrlen,         1, 1,   ExpFuncSafety::Safe},
-	{ "substr",        &expFuncSubstr,         3, 3,   ExpFuncSafety::Safe},
+	{ "substr",        &expFuncSubstr,         3, 3,   ExpFuncSafety::ConditionalUnsafe},
 #if ARMIPS_REGEXP
 	{ "regex_match",   &expFuncRegExMatch,     2, 2,   ExpFuncSafety::Safe},
 	{ "regex_search",  &expFuncRegExSearch,    2, 2,   ExpFuncSafety::Safe},
-	{ "regex_extract", &expFuncRegExExtract,   2, 3,   ExpFuncSafety::Safe},
+	{ "regex_extract", &expFuncRegExExtract,   2, 3,   ExpFuncSafety::ConditionalUnsafe},
 #endif
 	{ "find",          &expFuncFind,           2, 3,   ExpFuncSafety::Safe},
 	{ "rfind",         &expFuncRFind,          2, 3,   ExpFuncSafety::Safe},
-- 
2.43.0


From 1c581a829545304d73412cadf40e2d23e5333a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:11 +0000
Subject: [PATCH 058/121] fix: isarm() and isthumb() in parameters of user
 functions gave the mode at the end of the source

---
 Core/Expression.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Core/Expression.cpp b/Core/Expression.cpp
index 5d2858a..9a68ee4 100644
--- a/Core/Expression.cpp
+++ b/Core/Expression.cpp
@@ -564,7 +564,12 @@ bool ExpressionInternal::simplify(bool inUnknownOrFalseBlock)
 		return false;
 	case OperatorType::FunctionCall:
 		if (!isExpressionFunctionSafe(valueAs<Identifier>(), inUnknownOrFalseBlock))
+		{
+			// parameters may depend on the current state of the parser
+			for (auto &parameter: children)
+				parameter->simplify(inUnknownOrFalseBlock);
 			return false;
+		}
 		break;
 	default:
 		break;
-- 
2.43.0


From 4dd53c1b15bf680b58b3b9d0324d3c9d27876cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:14 +0000
Subject: [PATCH 059/121] fix: including a file as ASCII skipped part of it

---
 Util/FileClasses.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/Util/FileClasses.cpp b/Util/FileClasses.cpp
index 4b30629..f5acc9c 100644
--- a/Util/FileClasses.cpp
+++ b/Util/FileClasses.cpp
@@ -855,7 +855,6 @@ char32_t TextFile::readCharacter()
 		break;
 	case ASCII:
 		value = bufGetChar();
-		contentPos++;
 		break;
 
 	case GUESS:
-- 
2.43.0


From 9eb2412308d6a94710effccdc9c1440f50b6d847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:16 +0000
Subject: [PATCH 060/121] fix: half-width katakana in Shift-JIS sources were
 read as double-byte characters

---
 Util/FileClasses.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Util/FileClasses.cpp b/Util/FileClasses.cpp
index f5acc9c..0156ffd 100644
--- a/Util/FileClasses.cpp
+++ b/Util/FileClasses.cpp
@@ -844,7 +844,7 @@ char32_t TextFile::readCharacter()
 	case SJIS:
 		{
 			unsigned short sjis = bufGetChar();
-			if (sjis >= 0x80)
+			if ((sjis >= 0x81 && sjis <= 0x9F) || sjis >= 0xE0)
 				sjis = (sjis << 8) | bufGetChar();
 
 			if (auto unicode = sjisToUnicode(sjis))
-- 
2.43.0


From de539a581a5d461b3e534419fb6e8811c74ba63a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:20 +0000
Subject: [PATCH 061/121] fix: .string before .loadtable was encoded with the
 table loaded later in the source

---
 Core/Assembler.cpp     | 1 +
 Util/EncodingTable.cpp | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/Core/Assembler.cpp b/Core/Assembler.cpp
index a666582..120e6a1 100644
--- a/Core/Assembler.cpp
+++ b/Core/Assembler.cpp
@@ -39,6 +39,7 @@ bool encodeAssembly(std::unique_ptr<CAssemblerCommand> content, SymbolData& symD
 
 		g_fileManager->reset();
 		Allocations::clearSubAreas();
+		Global.Table.clear();
 
 #ifdef _DEBUG
 		if (!Logger::isSilent())
diff --git a/Util/EncodingTable.cpp b/Util/EncodingTable.cpp
index 373b35b..ad1c9a4 100644
--- a/Util/EncodingTable.cpp
+++ b/Util/EncodingTable.cpp
@@ -78,6 +78,8 @@ void EncodingTable::clear()
 {
 	hexData.clear();
 	entries.clear();
+	lookup = Trie();
+	terminationEntry = TableEntry();
 }
 
 int parseHexString(std::string& hex, unsigned char* dest)
-- 
2.43.0


From 5c7eca66d4a8c50367c0c744ec3b3ea86aa7dabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:24 +0000
Subject: [PATCH 062/121] fix: temp file listed fill values above 0x7F
 sign-extended

---
 Commands/CDirectiveArea.cpp | 4 ++--
 Commands/CDirectiveFile.cpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/Commands/CDirectiveArea.cpp b/Commands/CDirectiveArea.cpp
index 92c9fdc..65cc61c 100644
--- a/Commands/CDirectiveArea.cpp
+++ b/Commands/CDirectiveArea.cpp
@@ -139,7 +139,7 @@ void CDirectiveArea::writeTempData(TempData& tempData) const
 	if (positionExpression.isLoaded())
 		tempData.writeLine(position, tfm::format(".org 0x%08llX", position));
 	if (shared && fillExpression.isLoaded())
-		tempData.writeLine(position,tfm::format(".%S 0x%08X,0x%02x",directiveType,areaSize,fillValue));
+		tempData.writeLine(position,tfm::format(".%S 0x%08X,0x%02x",directiveType,areaSize,fillValue & 0xFF));
 	else
 		tempData.writeLine(position,tfm::format(".%S 0x%08X",directiveType,areaSize));
 	if (content)
@@ -154,7 +154,7 @@ void CDirectiveArea::writeTempData(TempData& tempData) const
 		if (subAreaUsage != 0)
 			tempData.writeLine(position+contentSize, tfm::format(".skip 0x%08llX",subAreaUsage));
 
-		std::string fillString = tfm::format(".fill 0x%08X,0x%02X",areaSize-contentSize-subAreaUsage,fillValue);
+		std::string fillString = tfm::format(".fill 0x%08X,0x%02X",areaSize-contentSize-subAreaUsage,fillValue & 0xFF);
 		tempData.writeLine(position+contentSize+subAreaUsage,fillString);
 		tempData.writeLine(position+areaSize,tfm::format(".end%S",directiveType));
 	} else {
diff --git a/Commands/CDirectiveFile.cpp b/Commands/CDirectiveFile.cpp
index 706abcd..8b9297b 100644
--- a/Commands/CDirectiveFile.cpp
+++ b/Commands/CDirectiveFile.cpp
@@ -406,7 +406,7 @@ void CDirectiveAlignFill::writeTempData(TempData& tempData) const
 		tempData.writeLine(virtualAddress, tfm::format(".aligna 0x%08X", value));
 		break;
 	case Fill:
-		tempData.writeLine(virtualAddress,tfm::format(".fill 0x%08X,0x%02X",value,fillByte));
+		tempData.writeLine(virtualAddress,tfm::format(".fill 0x%08X,0x%02X",value,fillByte & 0xFF));
 		break;
 	}
 }
-- 
2.43.0


From db9b756c04d70d8b73b3d828cc9e05b8be9f4c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:27 +0000
Subject: [PATCH 063/121] fix: temp file listed 64-bit data padded with blanks

---
 Commands/CDirectiveData.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Commands/CDirectiveData.cpp b/Commands/CDirectiveData.cpp
index 9b0506e..af17dad 100644
--- a/Commands/CDirectiveData.cpp
+++ b/Commands/CDirectiveData.cpp
@@ -433,7 +433,7 @@ void CDirectiveData::writeTempData(TempData& tempData) const
 
 		for (size_t i = 0; i < normalData.size(); i++)
 		{
-			str += snprintf(str,end-str,"0x%16" PRIx64 ",",(uint64_t)normalData[i]);
+			str += snprintf(str,end-str,"0x%016" PRIX64 ",",(uint64_t)normalData[i]);
 		}
 		break;
 	case EncodingMode::Invalid:
-- 
2.43.0


From e3db2e8b61ce8fe8ef1d3726255eb31cfc223ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:35 +0000
Subject: [PATCH 064/121] fix: function sizes in -sym2 files were attached to
 every label at the address

---
 Core/SymbolData.cpp | 3 ++-
 Core/SymbolData.h   | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/Core/SymbolData.cpp b/Core/SymbolData.cpp
index ce03c99..93d57d7 100644
--- a/Core/SymbolData.cpp
+++ b/Core/SymbolData.cpp
@@ -54,7 +54,7 @@ void SymbolData::writeNocashSym()
 			size_t size = 0;
 			for (size_t f = 0; f < module.functions.size(); f++)
 			{
-				if (module.functions[f].address == sym.address)
+				if (module.functions[f].address == sym.address && module.functions[f].symbol == i)
 				{
 					size = module.functions[f].size;
 					break;
@@ -218,6 +218,7 @@ void SymbolData::startFunction(int64_t address)
 	SymDataFunction func;
 	func.address = address;
 	func.size = 0;
+	func.symbol = enabled ? modules[currentModule].symbols.size() : (size_t) -1; // its label is added next
 	modules[currentModule].functions.push_back(func);
 }
 
diff --git a/Core/SymbolData.h b/Core/SymbolData.h
index cd5a9a4..3e1b799 100644
--- a/Core/SymbolData.h
+++ b/Core/SymbolData.h
@@ -36,6 +36,7 @@ struct SymDataFunction
 {
 	int64_t address;
 	size_t size;
+	size_t symbol;
 	
 	bool operator<(const SymDataFunction& other) const
 	{
-- 
2.43.0


From 2867811e46f4cbddcf26807d959da2a4a4d5d86a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:40 +0000
Subject: [PATCH 065/121] fix: temp file ran long MIPS mnemonics into their
 operands

---
 Archs/MIPS/MipsParser.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Archs/MIPS/MipsParser.cpp b/Archs/MIPS/MipsParser.cpp
index afdecae..57e8408 100644
--- a/Archs/MIPS/MipsParser.cpp
+++ b/Archs/MIPS/MipsParser.cpp
@@ -1795,8 +1795,9 @@ const std::string& MipsOpcodeFormatter::formatOpcode(const MipsOpcodeData& opDat
 	buffer = "   ";
 	handleOpcodeName(opData);
 
-	while (buffer.size() < 11)
+	do
 		buffer += ' ';
+	while (buffer.size() < 11);
 
 	handleOpcodeParameters(opData,regData,immData);
 	return buffer;
-- 
2.43.0


From a080dcef8d996dcf506467b2b933e152b0e3205b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:46 +0000
Subject: [PATCH 066/121] fix: relocations could see uninitialised symbol types

---
 Core/ELF/ElfFile.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Core/ELF/ElfFile.h b/Core/ELF/ElfFile.h
index 5d37e93..86e2afd 100644
--- a/Core/ELF/ElfFile.h
+++ b/Core/ELF/ElfFile.h
@@ -118,6 +118,6 @@ struct RelocationData
 	int32_t addend;
 
 	int64_t symbolAddress;
-	int targetSymbolType;
-	int targetSymbolInfo;
+	int targetSymbolType = 0;
+	int targetSymbolInfo = 0;
 };
-- 
2.43.0


From c316136d89eeeba627cc518139235549429872bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:54 +0000
Subject: [PATCH 067/121] fix: ELF symbol names were read from the wrong string
 table

---
 Core/ELF/ElfFile.cpp | 9 +++------
 Core/ELF/ElfFile.h   | 1 +
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/Core/ELF/ElfFile.cpp b/Core/ELF/ElfFile.cpp
index 85518b2..3f53cdc 100644
--- a/Core/ELF/ElfFile.cpp
+++ b/Core/ELF/ElfFile.cpp
@@ -414,18 +414,15 @@ bool ElfFile::load(ByteArray& data, bool sort)
 			case SHT_SYMTAB:
 				symTab = section;
 				break;
-			case SHT_STRTAB:
-				if (!strTab || i != fileHeader.e_shstrndx)
-				{
-					strTab = section;
-				}
-				break;
 			}
 
 			segmentlessSections.push_back(section);
 		}
 	}
 	
+	if (symTab != nullptr && symTab->getLink() < sections.size())
+		strTab = sections[symTab->getLink()];
+
 	determinePartOrder();
 	loadSectionNames();
 
diff --git a/Core/ELF/ElfFile.h b/Core/ELF/ElfFile.h
index 86e2afd..d40f502 100644
--- a/Core/ELF/ElfFile.h
+++ b/Core/ELF/ElfFile.h
@@ -76,6 +76,7 @@ public:
 	Elf32_Word getAlignment() { return header.sh_addralign; };
 	Elf32_Addr getAddress() { return header.sh_addr; };
 	Elf32_Half getInfo() { return header.sh_info; };
+	Elf32_Word getLink() { return header.sh_link; };
 	Elf32_Word getFlags() { return header.sh_flags; };
 private:
 	Elf32_Shdr header;
-- 
2.43.0


From cff78137edcf6ac758f6039f6f9cebc2b5935f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:58 +0000
Subject: [PATCH 068/121] fix: crash on ELF sections and common symbols with an
 alignment of 0

---
 Core/ELF/ElfRelocator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Core/ELF/ElfRelocator.cpp b/Core/ELF/ElfRelocator.cpp
index 3401bd5..3e93e37 100644
--- a/Core/ELF/ElfRelocator.cpp
+++ b/Core/ELF/ElfRelocator.cpp
@@ -301,7 +301,7 @@ bool ElfRelocator::relocateFile(ElfRelocatorFile& file, int64_t& relocationAddre
 		size_t index = entry.index;
 		int size = section->getSize();
 
-		while (relocationAddress % section->getAlignment())
+		while (section->getAlignment() != 0 && relocationAddress % section->getAlignment())
 			relocationAddress++;
 
 		if (entry.label != nullptr)
@@ -445,7 +445,7 @@ bool ElfRelocator::relocateFile(ElfRelocatorFile& file, int64_t& relocationAddre
 			{
 				int64_t start = relocationAddress;
 
-				while (relocationAddress % sym.relativeAddress)
+				while (sym.relativeAddress != 0 && relocationAddress % sym.relativeAddress)
 					relocationAddress++;
 
 				sym.relocatedAddress = relocationAddress;
-- 
2.43.0


From 8230d16da750271abd8deac1c3434b4190f9d098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:03 +0000
Subject: [PATCH 069/121] fix: relocations against common symbols used the
 alignment as address

---
 Core/ELF/ElfRelocator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Core/ELF/ElfRelocator.cpp b/Core/ELF/ElfRelocator.cpp
index 3e93e37..50b9e82 100644
--- a/Core/ELF/ElfRelocator.cpp
+++ b/Core/ELF/ElfRelocator.cpp
@@ -364,8 +364,8 @@ bool ElfRelocator::relocateFile(ElfRelocatorFile& file, int64_t& relocationAddre
 				relData.addend = rela.r_addend;
 				relocator->setSymbolAddress(relData,sym.st_value,sym.st_info & 0xF);
 
-				// externs?
-				if (sym.st_shndx == 0)
+				// externs? common symbols are allocated after all sections, so their labels have to be used too
+				if (sym.st_shndx == 0 || sym.st_shndx == SHN_COMMON)
 				{
 					if (sym.st_name == 0)
 					{
-- 
2.43.0


From adf1b70630b484b349e81e4a6dda8bcaf6457c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:06 +0000
Subject: [PATCH 070/121] fix: -sym2 files lacked the sizes of imported
 functions

---
 Core/ELF/ElfRelocator.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Core/ELF/ElfRelocator.cpp b/Core/ELF/ElfRelocator.cpp
index 50b9e82..066ebc0 100644
--- a/Core/ELF/ElfRelocator.cpp
+++ b/Core/ELF/ElfRelocator.cpp
@@ -497,6 +497,9 @@ void ElfRelocator::writeSymbols(SymbolData& symData) const
 	{
 		for (const ElfRelocatorSymbol& sym: file.symbols)
 		{
+			if (sym.type == STT_FUNC)
+				symData.startFunction(sym.relocatedAddress);
+
 			symData.addLabel(sym.relocatedAddress, sym.name);
 
 			switch (sym.type)
@@ -505,7 +508,6 @@ void ElfRelocator::writeSymbols(SymbolData& symData) const
 				symData.addData(sym.relocatedAddress,sym.size,SymbolData::Data8);
 				break;
 			case STT_FUNC:
-				symData.startFunction(sym.relocatedAddress);
 				symData.endFunction(sym.relocatedAddress+sym.size);
 				break;
 			}
-- 
2.43.0


From 6c14f452496afc3bfe8bd3d5c9d126965c5a4e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:10 +0000
Subject: [PATCH 071/121] fix: THUMB calls in imported objects were mis-encoded
 for some targets

---
 Archs/ARM/ArmElfRelocator.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Archs/ARM/ArmElfRelocator.cpp b/Archs/ARM/ArmElfRelocator.cpp
index 7649b91..94fecfc 100644
--- a/Archs/ARM/ArmElfRelocator.cpp
+++ b/Archs/ARM/ArmElfRelocator.cpp
@@ -64,6 +64,8 @@ bool ArmElfRelocator::relocateOpcode(int type, const RelocationData& data, std::
 					errors.emplace_back("Branch target must be halfword aligned");
 					return false;
 				}
+
+				second = 0xF800;
 			} else {
 				if (arm9 == false)
 				{
@@ -78,9 +80,10 @@ bool ArmElfRelocator::relocateOpcode(int type, const RelocationData& data, std::
 				}
 				
 				second = 0xE800;
+				value = (s+a) - (p & ~3);	// blx is relative to the word aligned pc
 			}
 
-			if (abs(value) >= 0x400000)
+			if (value >= 0x400000 || value < -0x400000)
 			{
 				errors.emplace_back(tfm::format("Branch target %08X out of range",data.relocationBase));
 				return false;
-- 
2.43.0


From e047a2e533009eb3a8ca53051db774e099316b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:13 +0000
Subject: [PATCH 072/121] fix: blx opcodes in imported ARM objects were
 rejected or kept for ARM targets

---
 Archs/ARM/ArmElfRelocator.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/Archs/ARM/ArmElfRelocator.cpp b/Archs/ARM/ArmElfRelocator.cpp
index 94fecfc..924e1eb 100644
--- a/Archs/ARM/ArmElfRelocator.cpp
+++ b/Archs/ARM/ArmElfRelocator.cpp
@@ -125,7 +125,7 @@ bool ArmElfRelocator::relocateOpcode(int type, const RelocationData& data, std::
 					return false;
 				}
 
-				if (condField != 0xE)
+				if (condField != 0xE && condField != 0xF)
 				{
 					errors.emplace_back("Cannot convert conditional bl into blx");
 					return false;
@@ -140,9 +140,12 @@ bool ArmElfRelocator::relocateOpcode(int type, const RelocationData& data, std::
 					errors.emplace_back("Branch target must be word aligned");
 					return false;
 				}
+
+				if (condField == 0xF)	// blx
+					opcode = 0xEB000000;
 			}
 			
-			if (abs(value) >= 0x2000000)
+			if (value >= 0x2000000 || value < -0x2000000)
 			{
 				errors.emplace_back(tfm::format("Branch target %08X out of range",data.relocationBase));
 				return false;
-- 
2.43.0


From 6318f760949b094d0796a5b320bb089037d93898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:17 +0000
Subject: [PATCH 073/121] fix: the ARM constructor routine of .importobj could
 not be assembled

---
 Archs/ARM/ArmElfRelocator.cpp | 29 +++++++++++------------------
 1 file changed, 11 insertions(+), 18 deletions(-)

diff --git a/Archs/ARM/ArmElfRelocator.cpp b/Archs/ARM/ArmElfRelocator.cpp
index 924e1eb..9b841f4 100644
--- a/Archs/ARM/ArmElfRelocator.cpp
+++ b/Archs/ARM/ArmElfRelocator.cpp
@@ -186,26 +186,18 @@ const char* ctorTemplate = R"(
 	%innerLoopLabel%:
 	ldr	r0,[r6]
 	add	r6,4
-	.if %simpleMode%
-		blx	r0
-	.else
-		bl	%stubName%
-	.endif
+	%callCtor%
 	cmp	r6,r7
-	blt	%innerLooplabel%
+	blt	%innerLoopLabel%
 	cmp	r4,r5
 	blt	%outerLoopLabel%
-	.if %simpleMode%
-		pop	r4-r7,r15
-	.else
-		pop	r4-r7
-		pop	r0
-		%stubName%:
-		bx	r0
-	.endif
+	pop	r4-r7
+	pop	r3
+	bx	r3
+	%callStub%
 	.pool
 	%ctorTable%:
-	.word %ctorContent%"
+	.word %ctorContent%
 )";
 
 std::unique_ptr<CAssemblerCommand> ArmElfRelocator::generateCtorStub(std::vector<ElfRelocatorCtor>& ctors)
@@ -213,7 +205,8 @@ std::unique_ptr<CAssemblerCommand> ArmElfRelocator::generateCtorStub(std::vector
 	Parser parser;
 	if (ctors.size() != 0)
 	{
-		bool simpleMode = arm9 == false && Arm.GetThumbMode();
+		// without a blx opcode, the call has to go through a stub
+		std::string stubName = Global.symbolTable.getUniqueLabelName().string();
 
 		// create constructor table
 		std::string table;
@@ -229,8 +222,8 @@ std::unique_ptr<CAssemblerCommand> ArmElfRelocator::generateCtorStub(std::vector
 			{ "%ctorTableSize%",	tfm::format("%d",ctors.size()*8) },
 			{ "%outerLoopLabel%",	Global.symbolTable.getUniqueLabelName().string() },
 			{ "%innerLoopLabel%",	Global.symbolTable.getUniqueLabelName().string() },
-			{ "%stubName%",		Global.symbolTable.getUniqueLabelName().string() },
-			{ "%simpleMode%",		simpleMode ? "1" : "0" },
+			{ "%callCtor%",		arm9 ? "blx r0" : "bl " + stubName },
+			{ "%callStub%",		arm9 ? "" : stubName + ": bx r0" },
 			{ "%ctorContent%",		table },
 		});
 	} else {
-- 
2.43.0


From 2c42ff30651a67d950f4ce70065287dd3201e34b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:20 +0000
Subject: [PATCH 074/121] fix: the MIPS constructor routine jumped to a
 register in its load delay slot

---
 Archs/MIPS/MipsElfRelocator.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Archs/MIPS/MipsElfRelocator.cpp b/Archs/MIPS/MipsElfRelocator.cpp
index 7477fa6..cd5d24c 100644
--- a/Archs/MIPS/MipsElfRelocator.cpp
+++ b/Archs/MIPS/MipsElfRelocator.cpp
@@ -91,8 +91,9 @@ const char* mipsCtorTemplate = R"(
 	addiu	s0,8
 	%innerLoopLabel%:
 	lw		a0,(s2)
-	jalr	a0
 	addiu	s2,4h
+	jalr	a0
+	nop
 	bne		s2,s3,%innerLoopLabel%
 	nop
 	bne		s0,s1,%outerLoopLabel%
-- 
2.43.0


From 3dc2dfca0cb2c26fc8283bd6d6e7e38d014f91ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:23 +0000
Subject: [PATCH 075/121] fix: the SuperH constructor routine used a wrong
 register and a 16-bit table

---
 Archs/SuperH/ShElfRelocator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Archs/SuperH/ShElfRelocator.cpp b/Archs/SuperH/ShElfRelocator.cpp
index f12e3fd..d1404b5 100644
--- a/Archs/SuperH/ShElfRelocator.cpp
+++ b/Archs/SuperH/ShElfRelocator.cpp
@@ -60,7 +60,7 @@ const char* shCtorTemplate = R"(
 	mov		r0,r9
 	%outerLoopLabel%:
 	mov.l	@r8,r10
-	mov.l	@(4,r9),r11
+	mov.l	@(4,r8),r11
 	add		#8,r8
 	%innerLoopLabel%:
 	mov.l	@r10,r4
@@ -78,7 +78,7 @@ const char* shCtorTemplate = R"(
 	mov.l	@r15+,r8
 	.align 4
 	%ctorTable%:
-	.word	%ctorContent%
+	.d32	%ctorContent%
 )";
 
 std::unique_ptr<CAssemblerCommand> ShElfRelocator::generateCtorStub(std::vector<ElfRelocatorCtor>& ctors)
-- 
2.43.0


From 9f8f22607b3fa6c88709a49abe1ded175e22da1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:36 +0000
Subject: [PATCH 076/121] fix: the position of the ARM constructor table
 depended on its own literals

---
 Archs/ARM/ArmElfRelocator.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Archs/ARM/ArmElfRelocator.cpp b/Archs/ARM/ArmElfRelocator.cpp
index 9b841f4..419318c 100644
--- a/Archs/ARM/ArmElfRelocator.cpp
+++ b/Archs/ARM/ArmElfRelocator.cpp
@@ -195,9 +195,10 @@ const char* ctorTemplate = R"(
 	pop	r3
 	bx	r3
 	%callStub%
-	.pool
+	.align 4
 	%ctorTable%:
 	.word %ctorContent%
+	.pool
 )";
 
 std::unique_ptr<CAssemblerCommand> ArmElfRelocator::generateCtorStub(std::vector<ElfRelocatorCtor>& ctors)
-- 
2.43.0


From 3a7e658626fbc98b3f99cf2d24acdd7d68ca46a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:34 +0000
Subject: [PATCH 077/121] fix: .loadelf could not write next to section ends
 and wrote past the end of segments

---
 Archs/MIPS/MipsElfFile.cpp | 128 +++++++++++++++++--------------------
 Archs/MIPS/MipsElfFile.h   |   2 +-
 Core/ELF/ElfFile.cpp       |   4 +-
 Core/ELF/ElfFile.h         |   2 +-
 4 files changed, 64 insertions(+), 72 deletions(-)

diff --git a/Archs/MIPS/MipsElfFile.cpp b/Archs/MIPS/MipsElfFile.cpp
index 9d3e7bd..4402077 100644
--- a/Archs/MIPS/MipsElfFile.cpp
+++ b/Archs/MIPS/MipsElfFile.cpp
@@ -7,10 +7,13 @@
 #include "Util/CRC.h"
 #include "Util/Util.h"
 
+#include <algorithm>
+
 MipsElfFile::MipsElfFile()
 {
 	platform = Mips.GetVersion();
 	section = segment = -1;
+	offset = 0;
 	opened = false;
 }
 
@@ -39,12 +42,7 @@ void MipsElfFile::endSymData(SymbolData& symData)
 int64_t MipsElfFile::getVirtualAddress()
 {
 	if (segment != -1)
-	{
-		ElfSegment* seg = elf.getSegment(segment);
-		ElfSection* sect = seg->getSection(section);
-		int64_t addr = seg->getVirtualAddress() + sect->getOffset();
-		return addr+sectionOffset;
-	}
+		return elf.getSegment(segment)->getVirtualAddress()+offset;
 	
 	// segmentless sections don't have a virtual address
 	Logger::queueError(Logger::Error, "Not inside a mapped section");
@@ -54,18 +52,10 @@ int64_t MipsElfFile::getVirtualAddress()
 int64_t MipsElfFile::getPhysicalAddress()
 {
 	if (segment != -1)
-	{
-		ElfSegment* seg = elf.getSegment(segment);
-		ElfSection* sect = seg->getSection(section);
-		int64_t addr = seg->getOffset() + sect->getOffset();
-		return addr;
-	}
+		return elf.getSegment(segment)->getOffset()+offset;
 	
 	if (section != -1)
-	{
-		ElfSection* sect = elf.getSegmentlessSection(section);
-		return sect->getOffset();
-	}
+		return elf.getSegmentlessSection(section)->getOffset()+offset;
 	
 	Logger::queueError(Logger::Error, "Not inside a section");
 	return -1;
@@ -89,29 +79,30 @@ bool MipsElfFile::seekVirtual(int64_t virtualAddress)
 
 		if (segStart <= virtualAddress && virtualAddress < segEnd)
 		{
-			// find section
-			for (size_t l = 0; l < seg->getSectionCount(); l++)
-			{
-				ElfSection* sect = seg->getSection(l);
-				int64_t sectStart = segStart+sect->getOffset();
-				int64_t sectEnd = sectStart+sect->getSize();
-				
-				if (sectStart <= virtualAddress && virtualAddress < sectEnd)
-				{
-					segment = (int) i;
-					section = (int) l;
-					sectionOffset = (size_t) (virtualAddress-sectStart);
-					return true;
-				}
-			}
+			segment = (int) i;
+			section = -1;
+			offset = virtualAddress-segStart;
+			return true;
+		}
+	}
 
-			Logger::queueError(Logger::Error, "Found segment, but no containing section");
-			return false;
+	// the position after the last byte of a segment is valid too, but nothing can be written to it
+	for (size_t i = 0; i < elf.getSegmentCount(); i++)
+	{
+		ElfSegment* seg = elf.getSegment(i);
+		int64_t segSize = seg->getPhysSize();
+
+		if (segSize != 0 && seg->getVirtualAddress()+segSize == virtualAddress)
+		{
+			segment = (int) i;
+			section = -1;
+			offset = segSize;
+			return true;
 		}
 	}
 
 	// segmentless sections don't have a virtual address
-	Logger::printError(Logger::Error, "Couldn't find a mapped section");
+	Logger::queueError(Logger::Error, "Couldn't find a mapped section");
 	return false;
 }
 
@@ -126,24 +117,10 @@ bool MipsElfFile::seekPhysical(int64_t physicalAddress)
 
 		if (segStart <= physicalAddress && physicalAddress < segEnd)
 		{
-			// find section
-			for (size_t l = 0; l < seg->getSectionCount(); l++)
-			{
-				ElfSection* sect = seg->getSection(l);
-				int64_t sectStart = segStart+sect->getOffset();
-				int64_t sectEnd = sectStart+sect->getSize();
-				
-				if (sectStart <= physicalAddress && physicalAddress < sectEnd)
-				{
-					segment = (int) i;
-					section = (int) l;
-					sectionOffset = physicalAddress-sectStart;
-					return true;
-				}
-			}
-
-			Logger::queueError(Logger::Error, "Found segment, but no containing section");
-			return false;
+			segment = (int) i;
+			section = -1;
+			offset = physicalAddress-segStart;
+			return true;
 		}
 	}
 
@@ -158,7 +135,7 @@ bool MipsElfFile::seekPhysical(int64_t physicalAddress)
 		{
 			segment = -1;
 			section = (int) i;
-			sectionOffset = physicalAddress-sectStart;
+			offset = physicalAddress-sectStart;
 			return true;
 		}
 	}
@@ -177,25 +154,38 @@ bool MipsElfFile::getModuleInfo(SymDataModuleInfo& info)
 
 bool MipsElfFile::write(void* data, size_t length)
 {
-	if (segment != -1)
+	auto src = static_cast<const byte*>(data);
+
+	while (length != 0)
 	{
-		ElfSegment* seg = elf.getSegment(segment);
-		ElfSection* sect = seg->getSection(section);
+		if (segment == -1)
+		{
+			// TODO: segmentless sections
+			Logger::printError(Logger::Error, "Not inside a mapped section");
+			return false;
+		}
 
-		int64_t pos = sect->getOffset()+sectionOffset;
-		seg->writeToData(pos,data,length);
-		sectionOffset += length;
-		return true;
-	}
+		ElfSegment* seg = elf.getSegment(segment);
+		int64_t available = (int64_t) seg->getPhysSize()-offset;
+		if (available == 0)
+		{
+			// continue in the segment that follows, if there is one
+			if (!seekVirtual(getVirtualAddress()) || elf.getSegment(segment) == seg)
+			{
+				Logger::printError(Logger::Error, "Data exceeds segment");
+				return false;
+			}
+			continue;
+		}
 
-	if (section != -1)
-	{
-		// TODO: segmentless sections
-		return false;
+		size_t count = std::min<uint64_t>(length,available);
+		seg->writeToData(offset,src,count);
+		offset += count;
+		src += count;
+		length -= count;
 	}
 
-	Logger::printError(Logger::Error, "Not inside a section");
-	return false;
+	return true;
 }
 
 bool MipsElfFile::load(const fs::path& fileName, const fs::path& outputFileName)
@@ -236,7 +226,8 @@ bool MipsElfFile::setSection(const std::string& name)
 		if (n != -1)
 		{
 			segment = (int) i;
-			section = n;
+			section = -1;
+			offset = seg->getSection(n)->getOffset();
 			return true;
 		}
 	}
@@ -247,6 +238,7 @@ bool MipsElfFile::setSection(const std::string& name)
 	{
 		segment = -1;
 		section = n;
+		offset = 0;
 		return true;
 	}
 
diff --git a/Archs/MIPS/MipsElfFile.h b/Archs/MIPS/MipsElfFile.h
index f4291ff..ceb7d11 100644
--- a/Archs/MIPS/MipsElfFile.h
+++ b/Archs/MIPS/MipsElfFile.h
@@ -34,7 +34,7 @@ private:
 
 	int segment;
 	int section;
-	size_t sectionOffset;
+	int64_t offset;	// inside the segment, or the segmentless section
 };
 
 
diff --git a/Core/ELF/ElfFile.cpp b/Core/ELF/ElfFile.cpp
index 3f53cdc..63621df 100644
--- a/Core/ELF/ElfFile.cpp
+++ b/Core/ELF/ElfFile.cpp
@@ -174,11 +174,11 @@ int ElfSegment::findSection(const std::string& name)
 	return -1;
 }
 
-void ElfSegment::writeToData(size_t offset, void* src, size_t size)
+void ElfSegment::writeToData(size_t offset, const void* src, size_t size)
 {
 	for (size_t i = 0; i < size; i++)
 	{
-		data[offset+i] = ((byte*)src)[i];
+		data[offset+i] = ((const byte*)src)[i];
 	}
 }
 
diff --git a/Core/ELF/ElfFile.h b/Core/ELF/ElfFile.h
index d40f502..a46d5a9 100644
--- a/Core/ELF/ElfFile.h
+++ b/Core/ELF/ElfFile.h
@@ -102,7 +102,7 @@ public:
 
 	int findSection(const std::string& name);
 	ElfSection* getSection(size_t index) { return sections[index]; };
-	void writeToData(size_t offset, void* data, size_t size);
+	void writeToData(size_t offset, const void* data, size_t size);
 	void sortSections();
 private:
 	Elf32_Phdr header;
-- 
2.43.0


From 71fc7cbe98099d2cfc85090295d76dd96d273ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:41 +0000
Subject: [PATCH 078/121] fix: position after .loadelf depended on the previous
 validation pass

---
 Archs/MIPS/MipsElfFile.cpp | 19 ++++++++++++++++---
 Archs/MIPS/MipsElfFile.h   |  2 ++
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/Archs/MIPS/MipsElfFile.cpp b/Archs/MIPS/MipsElfFile.cpp
index 4402077..fc31142 100644
--- a/Archs/MIPS/MipsElfFile.cpp
+++ b/Archs/MIPS/MipsElfFile.cpp
@@ -20,6 +20,7 @@ MipsElfFile::MipsElfFile()
 bool MipsElfFile::open(bool onlyCheck)
 {
 	opened = !onlyCheck;
+	seekStart();
 	return true;
 }
 
@@ -210,12 +211,24 @@ bool MipsElfFile::load(const fs::path& fileName, const fs::path& outputFileName)
 		return false;
 	}
 
-	if (elf.getSegmentCount() != 0)
-		seekVirtual(elf.getSegment(0)->getVirtualAddress());
-
 	return true;
 }
 
+void MipsElfFile::seekStart()
+{
+	section = segment = -1;
+	offset = 0;
+
+	for (size_t i = 0; i < elf.getSegmentCount(); i++)
+	{
+		if (elf.getSegment(i)->getPhysSize() != 0)
+		{
+			segment = (int) i;
+			break;
+		}
+	}
+}
+
 bool MipsElfFile::setSection(const std::string& name)
 {
 	// look in segments
diff --git a/Archs/MIPS/MipsElfFile.h b/Archs/MIPS/MipsElfFile.h
index ceb7d11..f7e15a1 100644
--- a/Archs/MIPS/MipsElfFile.h
+++ b/Archs/MIPS/MipsElfFile.h
@@ -26,6 +26,8 @@ public:
 	void save();
 	bool setSection(const std::string& name);
 private:
+	void seekStart();
+
 	ElfFile elf;
 	fs::path fileName;
 	fs::path outputFileName;
-- 
2.43.0


From 546deb48077206f7c6724ef5515bf389e1d4cbb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:45 +0000
Subject: [PATCH 079/121] fix: second .loadelf of a file dropped the changes of
 the first

---
 Archs/MIPS/MipsElfFile.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/Archs/MIPS/MipsElfFile.cpp b/Archs/MIPS/MipsElfFile.cpp
index fc31142..1478da1 100644
--- a/Archs/MIPS/MipsElfFile.cpp
+++ b/Archs/MIPS/MipsElfFile.cpp
@@ -19,6 +19,17 @@ MipsElfFile::MipsElfFile()
 
 bool MipsElfFile::open(bool onlyCheck)
 {
+	// the file may have been changed by earlier parts of the same program
+	if (!onlyCheck)
+	{
+		elf = ElfFile();
+		if (!elf.load(fileName,true))
+		{
+			Logger::printError(Logger::FatalError, "Failed to load %s",fileName.u8string());
+			return false;
+		}
+	}
+
 	opened = !onlyCheck;
 	seekStart();
 	return true;
@@ -191,6 +202,7 @@ bool MipsElfFile::write(void* data, size_t length)
 
 bool MipsElfFile::load(const fs::path& fileName, const fs::path& outputFileName)
 {
+	this->fileName = fileName;
 	this->outputFileName = outputFileName;
 
 	if (!elf.load(fileName,true))
-- 
2.43.0


From 6a1a49e825c17eee669819773298deff63c39677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:54 +0000
Subject: [PATCH 080/121] fix: .loadelf ignored errors when writing its output

---
 Archs/MIPS/MipsElfFile.cpp | 20 +++++++++++++++++++-
 Core/ELF/ElfFile.cpp       |  4 ++--
 Core/ELF/ElfFile.h         |  2 +-
 3 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/Archs/MIPS/MipsElfFile.cpp b/Archs/MIPS/MipsElfFile.cpp
index 1478da1..dda9095 100644
--- a/Archs/MIPS/MipsElfFile.cpp
+++ b/Archs/MIPS/MipsElfFile.cpp
@@ -19,6 +19,23 @@ MipsElfFile::MipsElfFile()
 
 bool MipsElfFile::open(bool onlyCheck)
 {
+	if (onlyCheck)
+	{
+		bool exists = fs::exists(outputFileName);
+
+		fs::fstream temp;
+		temp.open(outputFileName, exists ? fs::fstream::in | fs::fstream::out | fs::fstream::binary : fs::fstream::out | fs::fstream::binary);
+		if (!temp.is_open())
+		{
+			Logger::queueError(Logger::FatalError, "Could not open file %s",outputFileName.u8string());
+			return false;
+		}
+		temp.close();
+
+		if (!exists)
+			fs::remove(outputFileName);
+	}
+
 	// the file may have been changed by earlier parts of the same program
 	if (!onlyCheck)
 	{
@@ -273,7 +290,8 @@ bool MipsElfFile::setSection(const std::string& name)
 
 void MipsElfFile::save()
 {
-	elf.save(outputFileName);
+	if (!elf.save(outputFileName))
+		Logger::printError(Logger::Error, "Could not write file %s",outputFileName.u8string());
 }
 
 //
diff --git a/Core/ELF/ElfFile.cpp b/Core/ELF/ElfFile.cpp
index 63621df..1f31176 100644
--- a/Core/ELF/ElfFile.cpp
+++ b/Core/ELF/ElfFile.cpp
@@ -439,7 +439,7 @@ bool ElfFile::load(ByteArray& data, bool sort)
 	return true;
 }
 
-void ElfFile::save(const fs::path& fileName)
+bool ElfFile::save(const fs::path& fileName)
 {
 	fileData.clear();
 
@@ -490,7 +490,7 @@ void ElfFile::save(const fs::path& fileName)
 		sections[i]->writeHeader(fileData, pos, endianness);
 	}
 
-	fileData.toFile(fileName);
+	return fileData.toFile(fileName);
 }
 
 int ElfFile::getSymbolCount()
diff --git a/Core/ELF/ElfFile.h b/Core/ELF/ElfFile.h
index a46d5a9..cb9b7df 100644
--- a/Core/ELF/ElfFile.h
+++ b/Core/ELF/ElfFile.h
@@ -16,7 +16,7 @@ public:
 
 	bool load(const fs::path&fileName, bool sort);
 	bool load(ByteArray& data, bool sort);
-	void save(const fs::path& fileName);
+	bool save(const fs::path& fileName);
 
 	Elf32_Half getType() { return fileHeader.e_type; };
 	Elf32_Half getMachine() { return fileHeader.e_machine; };
-- 
2.43.0


From eaf368e3c1f15fc77494a5b730cf3fc04738d88b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:58 +0000
Subject: [PATCH 081/121] fix: temp file lines of .loadelf used the address of
 a concurrent thread

---
 Archs/MIPS/MipsElfFile.cpp | 5 +++--
 Archs/MIPS/MipsElfFile.h   | 1 +
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/Archs/MIPS/MipsElfFile.cpp b/Archs/MIPS/MipsElfFile.cpp
index dda9095..d60709f 100644
--- a/Archs/MIPS/MipsElfFile.cpp
+++ b/Archs/MIPS/MipsElfFile.cpp
@@ -333,6 +333,7 @@ bool DirectiveLoadMipsElf::Validate(const ValidateState &state)
 {
 	Architecture::current().NextSection();
 	g_fileManager->openFile(file,true);
+	virtualAddress = g_fileManager->getVirtualAddress();
 	return false;
 }
 
@@ -345,9 +346,9 @@ void DirectiveLoadMipsElf::writeTempData(TempData& tempData) const
 {
 	if (outputName.empty())
 	{
-		tempData.writeLine(g_fileManager->getVirtualAddress(),tfm::format(".loadelf \"%s\"",inputName.u8string()));
+		tempData.writeLine(virtualAddress,tfm::format(".loadelf \"%s\"",inputName.u8string()));
 	} else {
-		tempData.writeLine(g_fileManager->getVirtualAddress(),tfm::format(".loadelf \"%s\",\"%s\"",
+		tempData.writeLine(virtualAddress,tfm::format(".loadelf \"%s\",\"%s\"",
 			inputName.u8string(),outputName.u8string()));
 	}
 }
diff --git a/Archs/MIPS/MipsElfFile.h b/Archs/MIPS/MipsElfFile.h
index f7e15a1..cfe10a2 100644
--- a/Archs/MIPS/MipsElfFile.h
+++ b/Archs/MIPS/MipsElfFile.h
@@ -53,4 +53,5 @@ private:
 	std::shared_ptr<MipsElfFile> file;
 	fs::path inputName;
 	fs::path outputName;
+	int64_t virtualAddress = 0;
 };
-- 
2.43.0


From 9544f9e7a34789db9affabbfa0130706e99af95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:02 +0000
Subject: [PATCH 082/121] fix: .loadelf dropped the contents of segments
 without sections

---
 Core/ELF/ElfFile.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Core/ELF/ElfFile.cpp b/Core/ELF/ElfFile.cpp
index 1f31176..cf31890 100644
--- a/Core/ELF/ElfFile.cpp
+++ b/Core/ELF/ElfFile.cpp
@@ -125,6 +125,7 @@ void ElfSegment::writeData(ByteArray& output)
 			header.p_paddr = (Elf32_Addr) output.size();
 
 		header.p_offset = (Elf32_Off) output.size();
+		output.append(data);
 		return;
 	}
 
-- 
2.43.0


From fe87d30314635304f2b08a3084afa7c4e9923d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:55 +0000
Subject: [PATCH 083/121] fix: malformed ELF files were read beyond their end

---
 Core/ELF/ElfFile.cpp | 77 +++++++++++++++++++++++++++++++++-----------
 Core/ELF/ElfFile.h   |  5 +--
 2 files changed, 62 insertions(+), 20 deletions(-)

diff --git a/Core/ELF/ElfFile.cpp b/Core/ELF/ElfFile.cpp
index cf31890..46f7e8f 100644
--- a/Core/ELF/ElfFile.cpp
+++ b/Core/ELF/ElfFile.cpp
@@ -79,15 +79,15 @@ ElfSegment::ElfSegment(Elf32_Phdr header, ByteArray& segmentData)
 
 bool ElfSegment::isSectionPartOf(ElfSection* section)
 {
-	int sectionStart = section->getOffset();
-	int sectionSize = section->getType() == SHT_NOBITS ? 0 : section->getSize();
-	int sectionEnd = sectionStart+sectionSize;
+	int64_t sectionStart = section->getOffset();
+	int64_t sectionSize = section->getType() == SHT_NOBITS ? 0 : section->getSize();
+	int64_t sectionEnd = sectionStart+sectionSize;
 
-	int segmentStart = header.p_offset;
-	int segmentEnd = segmentStart+header.p_filesz;
+	int64_t segmentStart = header.p_offset;
+	int64_t segmentEnd = segmentStart+header.p_filesz;
 
 	// exclusive > in case the size is 0
-	if (sectionStart < (int)header.p_offset || sectionStart > segmentEnd) return false;
+	if (sectionStart < segmentStart || sectionStart > segmentEnd) return false;
 
 	// does an empty section belong to this or the next segment? hm...
 	if (sectionStart == segmentEnd) return sectionSize == 0;
@@ -190,12 +190,15 @@ void ElfSegment::sortSections()
 
 void ElfFile::loadSectionNames()
 {
-	if (fileHeader.e_shstrndx == SHN_UNDEF) return;
+	if (fileHeader.e_shstrndx == SHN_UNDEF || fileHeader.e_shstrndx >= sections.size()) return;
 
 	// check if the string table is actually a string table
 	// sometimes it gives the wrong section id
 	size_t strTablePos = sections[fileHeader.e_shstrndx]->getOffset();
 	size_t strTableSize = sections[fileHeader.e_shstrndx]->getSize();
+	if (!isInFile(strTablePos, strTableSize))
+		return;
+
 	for (size_t i = 0; i < strTableSize; i++)
 	{
 		if (fileData[strTablePos+i] != 0 && fileData[strTablePos+i] < 0x20)
@@ -209,11 +212,12 @@ void ElfFile::loadSectionNames()
 		ElfSection* section = sections[i];
 		if (section->getType() == SHT_NULL) continue;
 
-		int strTablePos = sections[fileHeader.e_shstrndx]->getOffset();
-		int offset = strTablePos+section->getNameOffset();
+		size_t offset = section->getNameOffset();
+		if (offset >= strTableSize)
+			continue;
 
-		char* name = (char*) fileData.data(offset);
-		std::string strName = name;
+		const char* name = (const char*) fileData.data(strTablePos+offset);
+		std::string strName(name, strnlen(name, strTableSize-offset));
 		section->setName(strName);
 	}
 }
@@ -284,8 +288,11 @@ int ElfFile::findSegmentlessSection(const std::string& name)
 	return -1;
 }
 
-void ElfFile::loadElfHeader()
+bool ElfFile::loadElfHeader()
 {
+	if (fileData.size() < sizeof(Elf32_Ehdr) || memcmp(fileData.data(), "\x7F""ELF", 4) != 0)
+		return false;
+
 	memcpy(fileHeader.e_ident, &fileData[0], sizeof(fileHeader.e_ident));
 	Endianness endianness = getEndianness();
 	fileHeader.e_type = fileData.getWord(0x10, endianness);
@@ -301,6 +308,25 @@ void ElfFile::loadElfHeader()
 	fileHeader.e_shentsize = fileData.getWord(0x2E, endianness);
 	fileHeader.e_shnum = fileData.getWord(0x30, endianness);
 	fileHeader.e_shstrndx = fileData.getWord(0x32, endianness);
+
+	// the tables have to be inside of the file
+	if (fileHeader.e_phnum != 0)
+	{
+		if (fileHeader.e_phentsize < sizeof(Elf32_Phdr))
+			return false;
+		if (!isInFile(fileHeader.e_phoff, (uint64_t)fileHeader.e_phnum*fileHeader.e_phentsize))
+			return false;
+	}
+
+	if (fileHeader.e_shnum != 0)
+	{
+		if (fileHeader.e_shentsize < sizeof(Elf32_Shdr))
+			return false;
+		if (!isInFile(fileHeader.e_shoff, (uint64_t)fileHeader.e_shnum*fileHeader.e_shentsize))
+			return false;
+	}
+
+	return true;
 }
 
 void ElfFile::writeHeader(ByteArray& data, size_t pos, Endianness endianness)
@@ -361,10 +387,12 @@ bool ElfFile::load(ByteArray& data, bool sort)
 {
 	fileData = data;
 
-	loadElfHeader();
 	symTab = nullptr;
 	strTab = nullptr;
 
+	if (!loadElfHeader())
+		return false;
+
 	// load segments
 	for (size_t i = 0; i < fileHeader.e_phnum; i++)
 	{
@@ -373,6 +401,9 @@ bool ElfFile::load(ByteArray& data, bool sort)
 		Elf32_Phdr sectionHeader;
 		loadProgramHeader(sectionHeader, fileData, pos);
 
+		if (!isInFile(sectionHeader.p_offset, sectionHeader.p_filesz))
+			return false;
+
 		ByteArray segmentData = fileData.mid(sectionHeader.p_offset,sectionHeader.p_filesz);
 		ElfSegment* segment = new ElfSegment(sectionHeader,segmentData);
 		segments.push_back(segment);
@@ -386,6 +417,12 @@ bool ElfFile::load(ByteArray& data, bool sort)
 		Elf32_Shdr sectionHeader;
 		loadSectionHeader(sectionHeader, fileData, pos);
 
+		if (sectionHeader.sh_type != SHT_NULL && sectionHeader.sh_type != SHT_NOBITS
+			&& !isInFile(sectionHeader.sh_offset, sectionHeader.sh_size))
+		{
+			return false;
+		}
+
 		ElfSection* section = new ElfSection(sectionHeader);
 		sections.push_back(section);
 
@@ -509,6 +546,9 @@ bool ElfFile::getSymbol(Elf32_Sym& symbol, size_t index)
 
 	ByteArray &data = symTab->getData();
 	size_t pos = index*sizeof(Elf32_Sym);
+	if (pos+sizeof(Elf32_Sym) > data.size())
+		return false;
+
 	Endianness endianness = getEndianness();
 	symbol.st_name  = data.getDoubleWord(pos + 0x00, endianness);
 	symbol.st_value = data.getDoubleWord(pos + 0x04, endianness);
@@ -520,10 +560,11 @@ bool ElfFile::getSymbol(Elf32_Sym& symbol, size_t index)
 	return true;
 }
 
-const char* ElfFile::getStrTableString(size_t pos)
+std::string ElfFile::getStrTableString(size_t pos)
 {
-	if (strTab == nullptr)
-		return nullptr;
-	
-	return (const char*) &strTab->getData()[pos];
+	if (strTab == nullptr || pos >= strTab->getData().size())
+		return std::string();
+
+	const char* string = (const char*) strTab->getData().data(pos);
+	return std::string(string, strnlen(string, strTab->getData().size()-pos));
 }
diff --git a/Core/ELF/ElfFile.h b/Core/ELF/ElfFile.h
index cb9b7df..4fd70d5 100644
--- a/Core/ELF/ElfFile.h
+++ b/Core/ELF/ElfFile.h
@@ -34,9 +34,10 @@ public:
 
 	int getSymbolCount();
 	bool getSymbol(Elf32_Sym& symbol, size_t index);
-	const char* getStrTableString(size_t pos);
+	std::string getStrTableString(size_t pos);
 private:
-	void loadElfHeader();
+	bool loadElfHeader();
+	bool isInFile(uint64_t offset, uint64_t size) const { return offset+size <= fileData.size(); }
 	void writeHeader(ByteArray& data, size_t pos, Endianness endianness);
 	void loadProgramHeader(Elf32_Phdr& header, ByteArray& data, size_t pos);
 	void loadSectionHeader(Elf32_Shdr& header, ByteArray& data, size_t pos);
-- 
2.43.0


From 0ffe1f1582a2be65081ea9713eb7cc6decb445fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:59 +0000
Subject: [PATCH 084/121] fix: malformed archives were read beyond their end

---
 Core/ELF/ElfRelocator.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/Core/ELF/ElfRelocator.cpp b/Core/ELF/ElfRelocator.cpp
index 066ebc0..a93fc9b 100644
--- a/Core/ELF/ElfRelocator.cpp
+++ b/Core/ELF/ElfRelocator.cpp
@@ -48,22 +48,30 @@ std::vector<ArFileEntry> loadArArchive(const fs::path& inputName)
 	size_t pos = 8;
 	while (pos < input.size())
 	{
+		if (pos+sizeof(ArFileHeader) > input.size())
+			return {};
+
 		ArFileHeader* header = (ArFileHeader*) input.data(pos);
 		pos += sizeof(ArFileHeader);
 		
 		// get file size
-		int size = 0;
+		size_t size = 0;
 		for (int i = 0; i < 10; i++)
 		{
 			if (header->fileSize[i] == ' ')
 				break;
+			if (header->fileSize[i] < '0' || header->fileSize[i] > '9')
+				return {};
 
 			size = size*10;
 			size += (header->fileSize[i]-'0');
 		}
 
+		if (size > input.size()-pos)
+			return {};
+
 		// only ELF files are actually interesting
-		if (memcmp(input.data(pos),"\x7F""ELF",4) == 0)
+		if (size >= 4 && memcmp(input.data(pos),"\x7F""ELF",4) == 0)
 		{
 			// get file name
 			char fileName[17];
-- 
2.43.0


From be5adb9fc02194cdb825479f5839933fb8498c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:04 +0000
Subject: [PATCH 085/121] fix: relocations with invalid symbols or offsets were
 applied

---
 Core/ELF/ElfRelocator.cpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/Core/ELF/ElfRelocator.cpp b/Core/ELF/ElfRelocator.cpp
index a93fc9b..173a32d 100644
--- a/Core/ELF/ElfRelocator.cpp
+++ b/Core/ELF/ElfRelocator.cpp
@@ -307,7 +307,7 @@ bool ElfRelocator::relocateFile(ElfRelocatorFile& file, int64_t& relocationAddre
 	{
 		ElfSection* section = entry.section;
 		size_t index = entry.index;
-		int size = section->getSize();
+		int64_t size = section->getSize();
 
 		while (section->getAlignment() != 0 && relocationAddress % section->getAlignment())
 			relocationAddress++;
@@ -349,7 +349,7 @@ bool ElfRelocator::relocateFile(ElfRelocatorFile& file, int64_t& relocationAddre
 			{
 				Elf32_Rela rela;
 				loadRelocation(rela, isRela, relSection->getData(), relOffset, elf->getEndianness());
-				int pos = rela.r_offset;
+				size_t pos = rela.r_offset;
 
 				if (relocator->isDummyRelocationType(rela.getType()))
 					continue;
@@ -363,9 +363,22 @@ bool ElfRelocator::relocateFile(ElfRelocatorFile& file, int64_t& relocationAddre
 				}
 
 				Elf32_Sym sym;
-				elf->getSymbol(sym, symNum);
+				if (!elf->getSymbol(sym, symNum))
+				{
+					Logger::queueError(Logger::Error, "Invalid symbol num %06X",symNum);
+					error = true;
+					continue;
+				}
+
 				int symSection = sym.st_shndx;
 				
+				if (pos+4 > sectionData.size())
+				{
+					Logger::queueError(Logger::Error, "Relocation offset %08X outside of section",pos);
+					error = true;
+					continue;
+				}
+
 				RelocationData relData;
 				relData.opcode = sectionData.getDoubleWord(pos, elf->getEndianness());
 				relData.opcodeOffset = pos+relocationOffsets[index];
-- 
2.43.0


From cb9f83d7a795aa036495b04f1e0acb40f1b4ed6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:10 +0000
Subject: [PATCH 086/121] fix: unterminated block comment aborted the program

---
 Parser/Tokenizer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Parser/Tokenizer.cpp b/Parser/Tokenizer.cpp
index 170f4fb..6bf9515 100644
--- a/Parser/Tokenizer.cpp
+++ b/Parser/Tokenizer.cpp
@@ -327,7 +327,8 @@ void FileTokenizer::skipWhitespace()
 				{
 					if (isInputAtEnd())
 					{
-						createToken(TokenType::Invalid,linePos, "Unexpected end of file in block comment");
+						linePos = currentLine.size();
+						createToken(TokenType::Invalid,0, "Unexpected end of file in block comment");
 						addToken(token);
 						return;
 					}
-- 
2.43.0


From bf1c018a535243701742231e1058606697bcb150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:15 +0000
Subject: [PATCH 087/121] fix: incomplete characters at the end of a line were
 read beyond its end

---
 Parser/Tokenizer.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/Parser/Tokenizer.cpp b/Parser/Tokenizer.cpp
index 6bf9515..6fd9bf8 100644
--- a/Parser/Tokenizer.cpp
+++ b/Parser/Tokenizer.cpp
@@ -29,7 +29,7 @@ namespace
 			value &= 0x0F;
 		}
 
-		for (size_t i = 0; i < extraBytes; i++)
+		for (size_t i = 0; i < extraBytes && index < source.size(); i++)
 		{
 			int b = source[index++];
 			value = (value << 6) | (b & 0x3F);
@@ -583,11 +583,14 @@ Token FileTokenizer::loadToken()
 	{
 		size_t decodePos = pos+1;
 
-		auto value = int64_t(decodeUtf8Character(currentLine, decodePos));
-		if (currentLine[decodePos] == '\'')
+		if (decodePos < currentLine.size())
 		{
-			createToken(TokenType::Integer,decodePos+1-pos,value);
-			return std::move(token);
+			auto value = int64_t(decodeUtf8Character(currentLine, decodePos));
+			if (decodePos < currentLine.size() && currentLine[decodePos] == '\'')
+			{
+				createToken(TokenType::Integer,decodePos+1-pos,value);
+				return std::move(token);
+			}
 		}
 	}
 
-- 
2.43.0


From f59d9185cdab9590a877aed5d0f3d9ab634e33cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:19 +0000
Subject: [PATCH 088/121] fix: using an equ without a value did not terminate

---
 Parser/Tokenizer.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/Parser/Tokenizer.cpp b/Parser/Tokenizer.cpp
index 6fd9bf8..79a8276 100644
--- a/Parser/Tokenizer.cpp
+++ b/Parser/Tokenizer.cpp
@@ -101,8 +101,16 @@ bool Tokenizer::processElement(TokenList::iterator& it)
 				if (nextIt != tokens.end() && nextIt->type == TokenType::Equ)
 					break;
 
-				// make room for the replacement tokens
 				const std::vector<Token>& replacement = equValues[index];
+				if (replacement.empty())
+				{
+					std::string message = tfm::format("Equ \"%s\" has no value",identifier);
+					it->type = TokenType::Invalid;
+					it->setValue(std::monostate{}, std::move(message));
+					break;
+				}
+
+				// make room for the replacement tokens
 				tokens.insert(nextIt, replacement.size()-1, {});
 
 				// insert replacement tokens, while keeping the file info of the original token
-- 
2.43.0


From e9e3d0230b8c02583e0f42903edd2f7e1e430b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:28 +0000
Subject: [PATCH 089/121] fix: file names that the system rejects aborted the
 program

---
 Archs/MIPS/MipsElfFile.cpp    | 5 +++--
 Commands/CDirectiveData.cpp   | 3 ++-
 Commands/CDirectiveFile.cpp   | 4 ++--
 Core/Common.cpp               | 7 +++++--
 Core/ExpressionFunctions.cpp  | 3 ++-
 Core/FileManager.cpp          | 4 ++--
 Main/CommandLineInterface.cpp | 5 +++--
 Parser/DirectivesParser.cpp   | 3 ++-
 Util/ByteArray.cpp            | 5 +++--
 Util/FileClasses.cpp          | 8 +++++++-
 10 files changed, 31 insertions(+), 16 deletions(-)

diff --git a/Archs/MIPS/MipsElfFile.cpp b/Archs/MIPS/MipsElfFile.cpp
index d60709f..e009441 100644
--- a/Archs/MIPS/MipsElfFile.cpp
+++ b/Archs/MIPS/MipsElfFile.cpp
@@ -21,7 +21,8 @@ bool MipsElfFile::open(bool onlyCheck)
 {
 	if (onlyCheck)
 	{
-		bool exists = fs::exists(outputFileName);
+		std::error_code errorCode;
+		bool exists = fs::exists(outputFileName, errorCode);
 
 		fs::fstream temp;
 		temp.open(outputFileName, exists ? fs::fstream::in | fs::fstream::out | fs::fstream::binary : fs::fstream::out | fs::fstream::binary);
@@ -33,7 +34,7 @@ bool MipsElfFile::open(bool onlyCheck)
 		temp.close();
 
 		if (!exists)
-			fs::remove(outputFileName);
+			fs::remove(outputFileName, errorCode);
 	}
 
 	// the file may have been changed by earlier parts of the same program
diff --git a/Commands/CDirectiveData.cpp b/Commands/CDirectiveData.cpp
index af17dad..35b6b7e 100644
--- a/Commands/CDirectiveData.cpp
+++ b/Commands/CDirectiveData.cpp
@@ -17,7 +17,8 @@ TableCommand::TableCommand(const fs::path& fileName, TextFile::Encoding encoding
 {
 	auto fullName = getFullPathName(fileName);
 
-	if (!fs::exists(fullName))
+	std::error_code error;
+	if (!fs::exists(fullName, error))
 	{
 		Logger::printError(Logger::Error, "Table file \"%s\" does not exist", fileName.u8string());
 		return;
diff --git a/Commands/CDirectiveFile.cpp b/Commands/CDirectiveFile.cpp
index 8b9297b..dca50d6 100644
--- a/Commands/CDirectiveFile.cpp
+++ b/Commands/CDirectiveFile.cpp
@@ -226,12 +226,12 @@ CDirectiveIncbin::CDirectiveIncbin(const fs::path& fileName)
 {
 	this->fileName = getFullPathName(fileName);
 
-	if (!fs::exists(this->fileName))
+	std::error_code error;
+	if (!fs::exists(this->fileName, error))
 	{
 		Logger::printError(Logger::FatalError, "File %s not found",this->fileName.u8string());
 	}
 
-	std::error_code error;
 	this->fileSize = static_cast<int64_t>(fs::file_size(this->fileName, error));
 }
 
diff --git a/Core/Common.cpp b/Core/Common.cpp
index 05efb9b..0eb3345 100644
--- a/Core/Common.cpp
+++ b/Core/Common.cpp
@@ -77,14 +77,17 @@ const std::string &FileList::Entry::relativeString() const
 
 fs::path getFullPathName(const fs::path& path)
 {
+	// an empty path can't be made absolute, it stays as it is and can't be opened
+	std::error_code error;
+
 	if (Global.relativeInclude && !path.is_absolute())
 	{
 		const fs::path &source = Global.fileList.path(Global.FileInfo.FileNum);
-		return fs::absolute(source.parent_path() / path).lexically_normal();
+		return fs::absolute(source.parent_path() / path, error).lexically_normal();
 	}
 	else
 	{
-		return fs::absolute(path).lexically_normal();
+		return fs::absolute(path, error).lexically_normal();
 	}
 }
 
diff --git a/Core/ExpressionFunctions.cpp b/Core/ExpressionFunctions.cpp
index 8cdc072..ca97e80 100644
--- a/Core/ExpressionFunctions.cpp
+++ b/Core/ExpressionFunctions.cpp
@@ -110,7 +110,8 @@ ExpressionValue expFuncFileExists(const Identifier &funcName, const std::vector<
 	GET_PARAM(parameters,0,fileName);
 
 	auto fullName = getFullPathName(fileName->path());
-	return ExpressionValue(fs::exists(fullName) ? INT64_C(1) : INT64_C(0));
+	std::error_code error;
+	return ExpressionValue(fs::exists(fullName, error) ? INT64_C(1) : INT64_C(0));
 }
 
 ExpressionValue expFuncFileSize(const Identifier &funcName, const std::vector<ExpressionValue>& parameters)
diff --git a/Core/FileManager.cpp b/Core/FileManager.cpp
index 287f1fc..998886e 100644
--- a/Core/FileManager.cpp
+++ b/Core/FileManager.cpp
@@ -104,7 +104,7 @@ bool GenericAssemblerFile::open(bool onlyCheck)
 
 	case Create:
 		// open file with writee access. if it didn't exist before, remove it afterwards
-		exists = fs::exists(fileName);
+		exists = fs::exists(fileName, errorCode);
 
 		temp.open(fileName, exists ? flagsOpenExisting : flagsOverwrite);
 		if (!temp.is_open())
@@ -138,7 +138,7 @@ bool GenericAssemblerFile::open(bool onlyCheck)
 		}
 
 		// check new file, same as create
-		exists = fs::exists(fileName);
+		exists = fs::exists(fileName, errorCode);
 
 		temp.open(fileName, exists ? flagsOpenExisting : flagsOverwrite);
 		if (!temp.is_open())
diff --git a/Main/CommandLineInterface.cpp b/Main/CommandLineInterface.cpp
index f423c93..ef972ea 100644
--- a/Main/CommandLineInterface.cpp
+++ b/Main/CommandLineInterface.cpp
@@ -189,10 +189,11 @@ static bool parseArguments(const std::vector<std::string>& arguments, ArmipsArgu
 	}
 
 	// turn input filename into an absolute path
+	std::error_code error;
 	if (settings.useAbsoluteFileNames)
-		settings.inputFileName = fs::absolute(settings.inputFileName).lexically_normal();
+		settings.inputFileName = fs::absolute(settings.inputFileName, error).lexically_normal();
 
-	if (!fs::exists(settings.inputFileName))
+	if (!fs::exists(settings.inputFileName, error))
 	{
 		Logger::printError(Logger::Error, "File \"%s\" not found", settings.inputFileName.u8string());
 		return false;
diff --git a/Parser/DirectivesParser.cpp b/Parser/DirectivesParser.cpp
index 7e9efcb..40fb949 100644
--- a/Parser/DirectivesParser.cpp
+++ b/Parser/DirectivesParser.cpp
@@ -751,7 +751,8 @@ std::unique_ptr<CAssemblerCommand> parseDirectiveInclude(Parser& parser, int fla
 	if (!parser.isInsideTrueBlock())
 		return std::make_unique<DummyCommand>();
 
-	if (!fs::exists(fileName))
+	std::error_code error;
+	if (!fs::exists(fileName, error))
 	{
 		parser.printError(start, "Included file \"%s\" does not exist",fileName.u8string());
 		return nullptr;
diff --git a/Util/ByteArray.cpp b/Util/ByteArray.cpp
index eac9db1..6d8b6a4 100644
--- a/Util/ByteArray.cpp
+++ b/Util/ByteArray.cpp
@@ -144,8 +144,9 @@ ByteArray ByteArray::fromFile(const fs::path& fileName, long start, size_t size)
 	if (!stream.is_open())
 		return {};
 
-	auto fileSize = fs::file_size(fileName);
-	if (start >= fileSize)
+	std::error_code error;
+	auto fileSize = fs::file_size(fileName, error);
+	if (error || start >= fileSize)
 		return {};
 
 	if (size == 0 || start+(long)size > fileSize)
diff --git a/Util/FileClasses.cpp b/Util/FileClasses.cpp
index 0156ffd..bc0c9bd 100644
--- a/Util/FileClasses.cpp
+++ b/Util/FileClasses.cpp
@@ -722,7 +722,13 @@ bool TextFile::open(Mode mode, Encoding defaultEncoding)
 
 	if (mode == Read)
 	{
-		size_ = long(fs::file_size(fileName));
+		std::error_code error;
+		size_ = long(fs::file_size(fileName, error));
+		if (error)
+		{
+			stream.close();
+			return false;
+		}
 
 		stream.read(reinterpret_cast<char *>(numBuffer), 3);
 		stream.clear(); // the file may be shorter than a byte order mark
-- 
2.43.0


From 1712cc1ab58a28f6b49d37b4173c7d5ddf237eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:31 +0000
Subject: [PATCH 090/121] fix: stack overflow on deeply nested expressions

---
 Parser/ExpressionParser.cpp | 65 ++++++++++++++++++++++++++++++-------
 1 file changed, 54 insertions(+), 11 deletions(-)

diff --git a/Parser/ExpressionParser.cpp b/Parser/ExpressionParser.cpp
index 8382339..6751c93 100644
--- a/Parser/ExpressionParser.cpp
+++ b/Parser/ExpressionParser.cpp
@@ -3,8 +3,23 @@
 #include "Core/ExpressionFunctionHandler.h"
 #include "Parser/Tokenizer.h"
 
+// expressions are processed recursively, so their depth has to be limited
+static const int maxExpressionNesting = 1000;
+static const int maxExpressionOperations = 10000;
+
+static thread_local int expressionNesting = 0;
+static thread_local int expressionOperations = 0;
+
 static std::unique_ptr<ExpressionInternal> expression(Tokenizer& tokenizer);
 
+static std::unique_ptr<ExpressionInternal> operation(OperatorType op, std::unique_ptr<ExpressionInternal> a, std::unique_ptr<ExpressionInternal> b)
+{
+	if (++expressionOperations > maxExpressionOperations)
+		return nullptr;
+
+	return std::make_unique<ExpressionInternal>(op, std::move(a), std::move(b));
+}
+
 static std::unique_ptr<ExpressionInternal> primaryExpression(Tokenizer& tokenizer)
 {
 	const Token &tok = tokenizer.peekToken();
@@ -138,7 +153,9 @@ static std::unique_ptr<ExpressionInternal> multiplicativeExpression(Tokenizer& t
 		if (exp2 == nullptr)
 			return nullptr;
 
-		exp = std::make_unique<ExpressionInternal>(op, std::move(exp), std::move(exp2));
+		exp = operation(op, std::move(exp), std::move(exp2));
+		if (exp == nullptr)
+			return nullptr;
 	}
 
 	return exp;
@@ -174,7 +191,9 @@ static std::unique_ptr<ExpressionInternal> additiveExpression(Tokenizer& tokeniz
 		if (exp2 == nullptr)
 			return nullptr;
 
-		exp = std::make_unique<ExpressionInternal>(op, std::move(exp), std::move(exp2));
+		exp = operation(op, std::move(exp), std::move(exp2));
+		if (exp == nullptr)
+			return nullptr;
 	}
 
 	return exp;
@@ -210,7 +229,9 @@ static std::unique_ptr<ExpressionInternal> shiftExpression(Tokenizer& tokenizer)
 		if (exp2 == nullptr)
 			return nullptr;
 
-		exp = std::make_unique<ExpressionInternal>(op, std::move(exp), std::move(exp2));
+		exp = operation(op, std::move(exp), std::move(exp2));
+		if (exp == nullptr)
+			return nullptr;
 	}
 
 	return exp;
@@ -251,7 +272,9 @@ static std::unique_ptr<ExpressionInternal> relationalExpression(Tokenizer& token
 		std::unique_ptr<ExpressionInternal> exp2 = shiftExpression(tokenizer);
 		if (exp2 == nullptr)
 			return nullptr;
-		exp = std::make_unique<ExpressionInternal>(op, std::move(exp), std::move(exp2));
+		exp = operation(op, std::move(exp), std::move(exp2));
+		if (exp == nullptr)
+			return nullptr;
 	}
 
 	return exp;
@@ -287,7 +310,9 @@ static std::unique_ptr<ExpressionInternal> equalityExpression(Tokenizer& tokeniz
 		if (exp2 == nullptr)
 			return nullptr;
 
-		exp = std::make_unique<ExpressionInternal>(op, std::move(exp), std::move(exp2));
+		exp = operation(op, std::move(exp), std::move(exp2));
+		if (exp == nullptr)
+			return nullptr;
 	}
 
 	return exp;
@@ -307,7 +332,9 @@ static std::unique_ptr<ExpressionInternal> andExpression(Tokenizer& tokenizer)
 		if (exp2 == nullptr)
 			return nullptr;
 
-		exp = std::make_unique<ExpressionInternal>(OperatorType::BitAnd, std::move(exp), std::move(exp2));
+		exp = operation(OperatorType::BitAnd, std::move(exp), std::move(exp2));
+		if (exp == nullptr)
+			return nullptr;
 	}
 
 	return exp;
@@ -327,7 +354,9 @@ static std::unique_ptr<ExpressionInternal> exclusiveOrExpression(Tokenizer& toke
 		if (exp2 == nullptr)
 			return nullptr;
 
-		exp = std::make_unique<ExpressionInternal>(OperatorType::Xor, std::move(exp), std::move(exp2));
+		exp = operation(OperatorType::Xor, std::move(exp), std::move(exp2));
+		if (exp == nullptr)
+			return nullptr;
 	}
 
 	return exp;
@@ -347,7 +376,9 @@ static std::unique_ptr<ExpressionInternal> inclusiveOrExpression(Tokenizer& toke
 		if (exp2 == nullptr)
 			return nullptr;
 
-		exp = std::make_unique<ExpressionInternal>(OperatorType::BitOr, std::move(exp), std::move(exp2));
+		exp = operation(OperatorType::BitOr, std::move(exp), std::move(exp2));
+		if (exp == nullptr)
+			return nullptr;
 	}
 
 	return exp;
@@ -367,7 +398,9 @@ static std::unique_ptr<ExpressionInternal> logicalAndExpression(Tokenizer& token
 		if (exp2 == nullptr)
 			return nullptr;
 
-		exp = std::make_unique<ExpressionInternal>(OperatorType::LogAnd, std::move(exp), std::move(exp2));
+		exp = operation(OperatorType::LogAnd, std::move(exp), std::move(exp2));
+		if (exp == nullptr)
+			return nullptr;
 	}
 
 	return exp;
@@ -387,7 +420,9 @@ static std::unique_ptr<ExpressionInternal> logicalOrExpression(Tokenizer& tokeni
 		if (exp2 == nullptr)
 			return nullptr;
 
-		exp = std::make_unique<ExpressionInternal>(OperatorType::LogOr, std::move(exp), std::move(exp2));
+		exp = operation(OperatorType::LogOr, std::move(exp), std::move(exp2));
+		if (exp == nullptr)
+			return nullptr;
 	}
 
 	return exp;
@@ -418,7 +453,14 @@ static std::unique_ptr<ExpressionInternal> conditionalExpression(Tokenizer& toke
 
 static std::unique_ptr<ExpressionInternal> expression(Tokenizer& tokenizer)
 {
-	return conditionalExpression(tokenizer);
+	if (expressionNesting >= maxExpressionNesting)
+		return nullptr;
+
+	expressionNesting++;
+	std::unique_ptr<ExpressionInternal> exp = conditionalExpression(tokenizer);
+	expressionNesting--;
+
+	return exp;
 }
 
 Expression parseExpression(Tokenizer& tokenizer, bool inUnknownOrFalseBlock)
@@ -427,6 +469,7 @@ Expression parseExpression(Tokenizer& tokenizer, bool inUnknownOrFalseBlock)
 
 	// parse expression, revert tokenizer to previous position
 	// if it failed
+	expressionOperations = 0;
 	std::unique_ptr<ExpressionInternal> exp = expression(tokenizer);
 	if (exp == nullptr)
 		tokenizer.setPosition(pos);
-- 
2.43.0


From a1d1e16a7b9f9be9588a430364be87ab42ea7a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:34 +0000
Subject: [PATCH 091/121] fix: stack overflow on endlessly recursive expression
 functions

---
 Core/ExpressionFunctionHandler.cpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/Core/ExpressionFunctionHandler.cpp b/Core/ExpressionFunctionHandler.cpp
index a9d3d57..01bdbde 100644
--- a/Core/ExpressionFunctionHandler.cpp
+++ b/Core/ExpressionFunctionHandler.cpp
@@ -7,6 +7,8 @@
 #include "Parser/ExpressionParser.h"
 #include "Parser/Tokenizer.h"
 
+static const int MaxUserFunctionNesting = 1000;
+
 ExpressionFunctionHandler &ExpressionFunctionHandler::instance()
 {
 	static ExpressionFunctionHandler handler;
@@ -133,6 +135,21 @@ bool ExpressionFunctionHandler::addUserFunction(const Identifier &name, const st
 		}
 
 		// instantiate
+		struct NestingGuard
+		{
+			NestingGuard(int& level) : level(level) { level++; }
+			~NestingGuard() { level--; }
+			int& level;
+		};
+
+		static thread_local int nestingLevel = 0;
+		NestingGuard guard(nestingLevel);
+		if (nestingLevel > MaxUserFunctionNesting)
+		{
+			Logger::queueError(Logger::Error, "%s: Maximum function nesting level exceeded", functionName);
+			return {};
+		}
+
 		TokenStreamTokenizer tok;
 		tok.init(content);
 
-- 
2.43.0


From d16083fb63e20b42f0b278ec735f9ca305b8755a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:37 +0000
Subject: [PATCH 092/121] fix: .fill with a negative size wrote out of bounds

---
 Commands/CDirectiveFile.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Commands/CDirectiveFile.cpp b/Commands/CDirectiveFile.cpp
index dca50d6..7813b4b 100644
--- a/Commands/CDirectiveFile.cpp
+++ b/Commands/CDirectiveFile.cpp
@@ -346,6 +346,12 @@ bool CDirectiveAlignFill::Validate(const ValidateState &state)
 		return false;
 	}
 
+	if (mode == Fill && value < 0)
+	{
+		Logger::queueError(Logger::Error, "Invalid size %d", value);
+		return false;
+	}
+
 	int64_t oldSize = finalSize;
 	int64_t mod;
 	switch (mode)
-- 
2.43.0


From 33ee6945db00bb10d48b1d7603a95e4c0bf30920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:40 +0000
Subject: [PATCH 093/121] fix: .incbin accepted negative positions and sizes

---
 Commands/CDirectiveFile.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/Commands/CDirectiveFile.cpp b/Commands/CDirectiveFile.cpp
index 7813b4b..677433d 100644
--- a/Commands/CDirectiveFile.cpp
+++ b/Commands/CDirectiveFile.cpp
@@ -247,7 +247,7 @@ bool CDirectiveIncbin::Validate(const ValidateState &state)
 			return false;
 		}
 
-		if (start > fileSize)
+		if (start < 0 || start > fileSize)
 		{
 			Logger::queueError(Logger::Error, "Start position past end of file");
 			return false;
@@ -263,11 +263,17 @@ bool CDirectiveIncbin::Validate(const ValidateState &state)
 			Logger::queueError(Logger::Error, "Invalid size expression");
 			return false;
 		}
+
+		if (size < 0)
+		{
+			Logger::queueError(Logger::Error, "Invalid size %d", size);
+			return false;
+		}
 	} else {
 		size = fileSize-start;
 	}
 
-	if (start+size > fileSize)
+	if (size > fileSize-start)
 	{
 		Logger::queueError(Logger::Warning, "Read size truncated due to file size");
 		size = fileSize-start;
-- 
2.43.0


From 026a8c2503b2f62ece8cf7ec00591013bab282ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:43 +0000
Subject: [PATCH 094/121] fix: .headersize without an open file crashed

---
 Commands/CDirectiveFile.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Commands/CDirectiveFile.cpp b/Commands/CDirectiveFile.cpp
index 677433d..aa2f564 100644
--- a/Commands/CDirectiveFile.cpp
+++ b/Commands/CDirectiveFile.cpp
@@ -483,6 +483,9 @@ CDirectiveHeaderSize::CDirectiveHeaderSize(Expression expression)
 void CDirectiveHeaderSize::exec() const
 {
 	std::shared_ptr<AssemblerFile> openFile = g_fileManager->getOpenFile();
+	if (openFile == nullptr)
+		return;
+
 	if (!openFile->hasFixedVirtualAddress())
 	{
 		Logger::printError(Logger::Error, "Header size not applicable for this file");
-- 
2.43.0


From 2af49921c057a90182942f6dcc20929549f0668f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:45 +0000
Subject: [PATCH 095/121] fix: failed allocations were used

---
 Util/ByteArray.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Util/ByteArray.cpp b/Util/ByteArray.cpp
index 6d8b6a4..286b558 100644
--- a/Util/ByteArray.cpp
+++ b/Util/ByteArray.cpp
@@ -3,6 +3,7 @@
 #include "Util/Util.h"
 
 #include <cstring>
+#include <new>
 
 ByteArray::ByteArray()
 {
@@ -70,6 +71,9 @@ void ByteArray::grow(size_t neededSize)
 	} else {
 		data_ = (byte*) realloc(data_,allocatedSize_);
 	}
+
+	if (data_ == nullptr && allocatedSize_ != 0)
+		throw std::bad_alloc();
 }
 
 size_t ByteArray::append(const ByteArray& other)
-- 
2.43.0


From 9ad0eda3b819335340f9b752fe0a1cba508b3859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:47 +0000
Subject: [PATCH 096/121] fix: -definelabel accepted values that are not
 numbers

---
 Util/Util.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Util/Util.cpp b/Util/Util.cpp
index 93c9601..2aae6dc 100644
--- a/Util/Util.cpp
+++ b/Util/Util.cpp
@@ -50,6 +50,9 @@ std::string convertWStringToUtf8(std::wstring_view source)
 
 bool stringToInt(const std::string& line, size_t start, size_t end, int64_t& result)
 {
+	if (start >= end)
+		return false;
+
 	// find base of number
 	int32_t base = 10;
 	if (line[start] == '0')
@@ -98,7 +101,7 @@ bool stringToInt(const std::string& line, size_t start, size_t end, int64_t& res
 
 		int32_t value = c >= 'a' ? c-'a'+10 : c-'0';
 
-		if (value >= base)
+		if (value < 0 || value >= base || (c > '9' && c < 'a'))
 			return false;
 
 		result = (result*base) + value;
-- 
2.43.0


From 29055cfd2293f26f3f2e94b2781f2466c3240b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:26 +0000
Subject: [PATCH 097/121] fix: macros and files that include themselves more
 than once did not terminate

---
 Parser/Parser.cpp | 5 +++++
 Parser/Parser.h   | 1 +
 2 files changed, 6 insertions(+)

diff --git a/Parser/Parser.cpp b/Parser/Parser.cpp
index 43eca25..0429830 100644
--- a/Parser/Parser.cpp
+++ b/Parser/Parser.cpp
@@ -325,9 +325,14 @@ bool Parser::matchToken(TokenType type, bool optional)
 
 std::unique_ptr<CAssemblerCommand> Parser::parse(Tokenizer* tokenizer, bool virtualFile, const fs::path& name)
 {
+	// parsing the rest of an endless recursion would take exponential time
+	if (maxDepthReached)
+		return nullptr;
+
 	if (entries.size() >= 150)
 	{
 		Logger::queueError(Logger::Error, "Max include/recursion depth reached");
+		maxDepthReached = true;
 		return nullptr;
 	}
 
diff --git a/Parser/Parser.h b/Parser/Parser.h
index ac942b1..8e42950 100644
--- a/Parser/Parser.h
+++ b/Parser/Parser.h
@@ -109,6 +109,7 @@ protected:
 	size_t errorLine;
 
 	bool overrideFileInfo;
+	bool maxDepthReached = false;
 	int overrideFileNum;
 	int overrideLineNum;
 
-- 
2.43.0


From 183210220946ff99d00bfd2b15b92c2f7a71d3d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:44 +0000
Subject: [PATCH 098/121] fix: PSX object segments that belong to a group are
 found by their id

---
 Archs/MIPS/PsxRelocator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Archs/MIPS/PsxRelocator.cpp b/Archs/MIPS/PsxRelocator.cpp
index e32ea11..2f9ee5f 100644
--- a/Archs/MIPS/PsxRelocator.cpp
+++ b/Archs/MIPS/PsxRelocator.cpp
@@ -101,7 +101,7 @@ bool PsxRelocator::parseObject(ByteArray data, PsxRelocatorFile& dest)
 		case 0x10:	// segment definition
 			{
 				PsxSegment seg;
-				seg.id = data.getDoubleWord(pos+1);
+				seg.id = data.getWord(pos+1); // followed by the id of the group
 				segments.push_back(seg);
 				pos += 5;
 
-- 
2.43.0


From d8dc1ac0829b7d287115093641051e6ce5295600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:48 +0000
Subject: [PATCH 099/121] fix: malformed PSX objects and libraries are rejected

---
 Archs/MIPS/PsxRelocator.cpp | 43 ++++++++++++++++++++++++++++++++-----
 1 file changed, 38 insertions(+), 5 deletions(-)

diff --git a/Archs/MIPS/PsxRelocator.cpp b/Archs/MIPS/PsxRelocator.cpp
index 2f9ee5f..926348e 100644
--- a/Archs/MIPS/PsxRelocator.cpp
+++ b/Archs/MIPS/PsxRelocator.cpp
@@ -9,6 +9,7 @@
 #include "Util/FileSystem.h"
 #include "Util/Util.h"
 
+#include <algorithm>
 #include <cstring>
 #include <map>
 
@@ -25,7 +26,7 @@ std::vector<PsxLibEntry> loadPsxLibrary(const fs::path& inputName)
 	ByteArray input = ByteArray::fromFile(inputName);
 	std::vector<PsxLibEntry> result;
 
-	if (input.size() == 0)
+	if (input.size() < sizeof(psxObjectFileMagicNum))
 		return result;
 
 	if (memcmp(input.data(),psxObjectFileMagicNum,sizeof(psxObjectFileMagicNum)) == 0)
@@ -44,7 +45,10 @@ std::vector<PsxLibEntry> loadPsxLibrary(const fs::path& inputName)
 	while (pos < input.size())
 	{
 		PsxLibEntry entry;
-		
+
+		if (input.size() - pos < 20)
+			return {};
+
 		for (int i = 0; i < 16 && input[pos+i] != ' '; i++)
 		{
 			entry.name += input[pos+i];
@@ -53,13 +57,19 @@ std::vector<PsxLibEntry> loadPsxLibrary(const fs::path& inputName)
 		int size = input.getDoubleWord(pos+16);
 		int skip = 20;
 
-		while (input[pos+skip] != 0)
+		if (size < skip || (size_t) size > input.size() - pos)
+			return {};
+
+		while (skip < size && input[pos+skip] != 0)
 		{
 			skip += 1+input[pos+skip];
 		}
 
 		skip++;
 
+		if (skip >= size)
+			return {};
+
 		entry.data = input.mid(pos+skip,size-skip);
 		pos += size;
 
@@ -84,17 +94,21 @@ size_t PsxRelocator::loadString(ByteArray& data, size_t pos, std::string& dest)
 
 bool PsxRelocator::parseObject(ByteArray data, PsxRelocatorFile& dest)
 {
-	if (memcmp(data.data(),psxObjectFileMagicNum,sizeof(psxObjectFileMagicNum)) != 0)
+	if (data.size() < sizeof(psxObjectFileMagicNum) || memcmp(data.data(),psxObjectFileMagicNum,sizeof(psxObjectFileMagicNum)) != 0)
 		return false;
 
 	size_t pos = 6;
+	size_t end = data.size();
+
+	// no record has more than 512 bytes in front of the data that is checked below
+	data.reserveBytes(512);
 
 	std::vector<PsxSegment>& segments = dest.segments;
 	std::vector<PsxSymbol>& syms = dest.symbols;
 
 	int activeSegment = -1;
 	int lastSegmentPartStart = -1;
-	while (pos < data.size())
+	while (pos < end)
 	{
 		switch (data[pos])
 		{
@@ -134,6 +148,9 @@ bool PsxRelocator::parseObject(ByteArray data, PsxRelocatorFile& dest)
 					}
 				}
 
+				if (num == -1)
+					return false;
+
 				activeSegment = num;
 			}
 			break;
@@ -142,6 +159,9 @@ bool PsxRelocator::parseObject(ByteArray data, PsxRelocatorFile& dest)
 				int size = data.getWord(pos+1);
 				pos += 3;
 
+				if (activeSegment == -1 || size > (ssize_t) (end - std::min(pos,end)))
+					return false;
+
 				ByteArray d = data.mid(pos,size);
 				pos += size;
 
@@ -154,6 +174,9 @@ bool PsxRelocator::parseObject(ByteArray data, PsxRelocatorFile& dest)
 				int size = data.getWord(pos+1);
 				pos += 3;
 
+				if (activeSegment == -1)
+					return false;
+
 				ByteArray d;
 				d.reserveBytes(size);
 				segments[activeSegment].data.append(d);
@@ -246,6 +269,9 @@ checkothertype:
 					return false;
 				}
 
+				if (activeSegment == -1 || lastSegmentPartStart == -1 || rel.segmentOffset + 4 > (ssize_t) segments[activeSegment].data.size())
+					return false;
+
 				segments[activeSegment].relocations.push_back(rel);
 			}
 			break;
@@ -275,6 +301,9 @@ checkothertype:
 				sym.id = data.getWord(pos+1);
 				sym.segment = data.getWord(pos+3);
 				sym.size = data.getDoubleWord(pos+5);
+				if (sym.size < 0)
+					return false;
+
 				pos += 9 + loadString(data,pos+9,sym.name);
 				syms.push_back(sym);
 			}
@@ -318,6 +347,10 @@ checkothertype:
 		default:
 			return false;
 		}
+
+		// truncated record
+		if (pos > end)
+			return false;
 	}
 
 	return true;
-- 
2.43.0


From de1b85019da1e2a77cc05aee42e558eb4b51d74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:52 +0000
Subject: [PATCH 100/121] fix: PSX object HI16 relocations with different
 offsets to one symbol

---
 Archs/MIPS/PsxRelocator.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Archs/MIPS/PsxRelocator.cpp b/Archs/MIPS/PsxRelocator.cpp
index 926348e..23baaf5 100644
--- a/Archs/MIPS/PsxRelocator.cpp
+++ b/Archs/MIPS/PsxRelocator.cpp
@@ -12,6 +12,7 @@
 #include <algorithm>
 #include <cstring>
 #include <map>
+#include <tuple>
 
 struct PsxLibEntry
 {
@@ -382,11 +383,11 @@ bool PsxRelocator::init(const fs::path& inputName)
 				// Sort in order of...
 				// - reference type - symbol or offset
 				// - reference id - this groups references to the same symbol/segment/?
-				// - referencePos - this ensure references to the same offset are grouped
+				// - target offset - this ensure references to the same offset are grouped
 				// - type - this ensures that HI16 is before LO16
 				auto tie = [](const PsxRelocation &rel)
 				{
-					return std::tie(rel.refType, rel.referenceId, rel.referencePos, rel.type);
+					return std::make_tuple(rel.refType, rel.referenceId, rel.referencePos + rel.relativeOffset, rel.type);
 				};
 
 				return tie(a) < tie(b);
-- 
2.43.0


From 0adfa39679946f4ccd4ed83f2f09ff8f5c60ad13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:57 +0000
Subject: [PATCH 101/121] fix: all offsets of a PSX object relocation are added

---
 Archs/MIPS/PsxRelocator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Archs/MIPS/PsxRelocator.cpp b/Archs/MIPS/PsxRelocator.cpp
index 23baaf5..9a411bb 100644
--- a/Archs/MIPS/PsxRelocator.cpp
+++ b/Archs/MIPS/PsxRelocator.cpp
@@ -234,7 +234,7 @@ checkothertype:
 					switch (data[pos++])
 					{
 					case 0x00:
-						rel.relativeOffset = data.getDoubleWord(pos);
+						rel.relativeOffset += data.getDoubleWord(pos);
 						pos += 4;
 						goto checkothertype;
 					case 0x04:					
@@ -259,7 +259,7 @@ checkothertype:
 					switch (data[pos++])
 					{
 					case 0x00:
-						rel.relativeOffset = -data.getDoubleWord(pos);
+						rel.relativeOffset -= data.getDoubleWord(pos);
 						pos += 4;
 						goto checkothertype;
 					default:
-- 
2.43.0


From 7d22e732502965d0b10635fa1b1afc9bf22d27d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:01 +0000
Subject: [PATCH 102/121] fix: addresses of PSX object symbols are not sign
 extended

---
 Archs/MIPS/PsxRelocator.cpp | 20 ++++++++++----------
 Archs/MIPS/PsxRelocator.h   |  4 ++--
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/Archs/MIPS/PsxRelocator.cpp b/Archs/MIPS/PsxRelocator.cpp
index 9a411bb..427fcae 100644
--- a/Archs/MIPS/PsxRelocator.cpp
+++ b/Archs/MIPS/PsxRelocator.cpp
@@ -424,11 +424,11 @@ bool PsxRelocator::init(const fs::path& inputName)
 	return true;
 }
 
-bool PsxRelocator::relocateFile(PsxRelocatorFile& file, int& relocationAddress)
+bool PsxRelocator::relocateFile(PsxRelocatorFile& file, int64_t& relocationAddress)
 {
-	std::map<int,int> relocationOffsets;
-	std::map<int,int> symbolOffsets;
-	int start = relocationAddress;
+	std::map<int,int64_t> relocationOffsets;
+	std::map<int,int64_t> symbolOffsets;
+	int64_t start = relocationAddress;
 
 	// assign addresses to segments
 	for (PsxSegment& seg: file.segments)
@@ -447,7 +447,7 @@ bool PsxRelocator::relocateFile(PsxRelocatorFile& file, int& relocationAddress)
 	bool error = false;
 	for (PsxSymbol& sym: file.symbols)
 	{
-		int pos;
+		int64_t pos;
 		switch (sym.type)
 		{
 		case PsxSymbolType::Internal:
@@ -478,7 +478,7 @@ bool PsxRelocator::relocateFile(PsxRelocatorFile& file, int& relocationAddress)
 				continue;
 			}
 			
-			symbolOffsets[sym.id] = (int) sym.label->getValue();
+			symbolOffsets[sym.id] = sym.label->getValue();
 			break;
 		}
 	}
@@ -566,14 +566,14 @@ bool PsxRelocator::relocateFile(PsxRelocatorFile& file, int& relocationAddress)
 	return !error;
 }
 
-bool PsxRelocator::relocate(int& memoryAddress)
+bool PsxRelocator::relocate(int64_t& memoryAddress)
 {
 	int oldCrc = getCrc32(outputData.data(),outputData.size());
 	outputData.clear();
 	dataChanged = false;
 
 	bool error = false;
-	int start = memoryAddress;
+	int64_t start = memoryAddress;
 
 	for (PsxRelocatorFile& file: files)
 	{
@@ -613,9 +613,9 @@ DirectivePsxObjImport::DirectivePsxObjImport(const fs::path& fileName)
 
 bool DirectivePsxObjImport::Validate(const ValidateState &state)
 {
-	int memory = (int) g_fileManager->getVirtualAddress();
+	int64_t memory = g_fileManager->getVirtualAddress();
 	rel.relocate(memory);
-	g_fileManager->advanceMemory(memory);
+	g_fileManager->advanceMemory((size_t) memory);
 	return rel.hasDataChanged();
 }
 
diff --git a/Archs/MIPS/PsxRelocator.h b/Archs/MIPS/PsxRelocator.h
index 052289a..b48dd81 100644
--- a/Archs/MIPS/PsxRelocator.h
+++ b/Archs/MIPS/PsxRelocator.h
@@ -57,14 +57,14 @@ class PsxRelocator
 {
 public:
 	bool init(const fs::path& inputName);
-	bool relocate(int& memoryAddress);
+	bool relocate(int64_t& memoryAddress);
 	bool hasDataChanged() { return dataChanged; };
 	const ByteArray& getData() const { return outputData; };
 	void writeSymbols(SymbolData& symData) const;
 private:
 	size_t loadString(ByteArray& data, size_t pos, std::string& dest);
 	bool parseObject(ByteArray data, PsxRelocatorFile& dest);
-	bool relocateFile(PsxRelocatorFile& file, int& relocationAddress);
+	bool relocateFile(PsxRelocatorFile& file, int64_t& relocationAddress);
 	
 	ByteArray outputData;
 	std::vector<PsxRelocatorFile> files;
-- 
2.43.0


From 1c5e81e640c4abc2d1c97c903aca3008618aeccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:05 +0000
Subject: [PATCH 103/121] fix: PSX object relocations of symbols that do not
 exist are rejected

---
 Archs/MIPS/PsxRelocator.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/Archs/MIPS/PsxRelocator.cpp b/Archs/MIPS/PsxRelocator.cpp
index 427fcae..5c3e276 100644
--- a/Archs/MIPS/PsxRelocator.cpp
+++ b/Archs/MIPS/PsxRelocator.cpp
@@ -506,6 +506,13 @@ bool PsxRelocator::relocateFile(PsxRelocatorFile& file, int64_t& relocationAddre
 			switch (rel.refType)
 			{
 			case PsxRelocationRefType::SymblId:
+				if (symbolOffsets.count(rel.referenceId) == 0)
+				{
+					Logger::queueError(Logger::Error, "Relocation of an unknown symbol in file %s",file.name);
+					error = true;
+					continue;
+				}
+
 				relData.relocationBase = symbolOffsets[rel.referenceId]+rel.relativeOffset;
 				break;
 			case PsxRelocationRefType::SegmentOffset:
-- 
2.43.0


From a79af7bee111be181deaf597348667a4c5639bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:08 +0000
Subject: [PATCH 104/121] fix: SuperH .importobj inside of a false block does
 not load the file

---
 Archs/SuperH/ShParser.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Archs/SuperH/ShParser.cpp b/Archs/SuperH/ShParser.cpp
index dd967ef..e5790b7 100644
--- a/Archs/SuperH/ShParser.cpp
+++ b/Archs/SuperH/ShParser.cpp
@@ -34,7 +34,11 @@ std::unique_ptr<CAssemblerCommand> parseDirectiveShImportObj(Parser& parser, int
 	StringLiteral inputName;
 	if (!list[0].evaluateString(inputName,true))
 		return nullptr;
-	
+
+	// don't load the file if it's inside a false block
+	if (!parser.isInsideTrueBlock())
+		return std::make_unique<DummyCommand>();
+
 	if (list.size() == 2)
 	{
 		Identifier ctorName;
-- 
2.43.0


From 1a0d8e69291a566993e552b54ca7e73d304edba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:11 +0000
Subject: [PATCH 105/121] fix: SuperH indirect registers in the temp file

---
 Archs/SuperH/ShParser.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/Archs/SuperH/ShParser.cpp b/Archs/SuperH/ShParser.cpp
index e5790b7..b12c4a3 100644
--- a/Archs/SuperH/ShParser.cpp
+++ b/Archs/SuperH/ShParser.cpp
@@ -92,7 +92,12 @@ bool ShParser::parseRegister(Parser& parser, ShRegisterValue& dest)
 bool ShParser::parseIndirectRegister(Parser& parser, ShRegisterValue& dest)
 {
 	dest.type = ShRegisterType::Normal;
-	return parseRegisterTable(parser, dest, &shRegisters[16], 16);
+	if (!parseRegisterTable(parser, dest, &shRegisters[16], 16))
+		return false;
+
+	// the @ belongs to the parameter format
+	dest.name = Identifier(shRegisters[dest.num].name);
+	return true;
 }
 
 bool ShParser::parseImmediate(Parser& parser, Expression& dest)
-- 
2.43.0


From 3690fabd011af49010bbd6bad46f6d1a5dd5f63e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:24 +0000
Subject: [PATCH 106/121] fix: names given twice on the command line in
 different case are rejected

---
 Main/CommandLineInterface.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/Main/CommandLineInterface.cpp b/Main/CommandLineInterface.cpp
index ef972ea..6a57ee2 100644
--- a/Main/CommandLineInterface.cpp
+++ b/Main/CommandLineInterface.cpp
@@ -7,6 +7,9 @@
 #include "Util/FileSystem.h"
 #include "Util/Util.h"
 
+#include <algorithm>
+#include <cctype>
+
 static void printUsage(const std::string &executableName)
 {
 	Logger::printLine("armips assembler v%d.%d.%d (%s %s) by Kingcom",
@@ -28,6 +31,13 @@ static void printUsage(const std::string &executableName)
 	Logger::printLine(" <FILE>                    Main assembly code file");
 }
 
+// names are case insensitive
+static bool isSameName(const Identifier& a, const Identifier& b)
+{
+	return std::equal(a.string().begin(), a.string().end(), b.string().begin(), b.string().end(),
+		[](char x, char y) { return ::tolower((unsigned char) x) == ::tolower((unsigned char) y); });
+}
+
 static bool parseArguments(const std::vector<std::string>& arguments, ArmipsArguments& settings)
 {
 	size_t argpos = 1;
@@ -79,7 +89,7 @@ static bool parseArguments(const std::vector<std::string>& arguments, ArmipsArgu
 				}
 
 				auto it = std::find_if(settings.equList.begin(), settings.equList.end(),
-						[&name](const EquationDefinition& x) -> bool {return name == x.name;});
+						[&name](const EquationDefinition& x) -> bool {return isSameName(name, x.name);});
 				if(it != settings.equList.end())
 				{
 					Logger::printError(Logger::Error, "Equation name \"%s\" already defined", name);
@@ -101,7 +111,7 @@ static bool parseArguments(const std::vector<std::string>& arguments, ArmipsArgu
 				}
 
 				auto it = std::find_if(settings.equList.begin(), settings.equList.end(),
-						[&name](const EquationDefinition& x) -> bool {return name == x.name;});
+						[&name](const EquationDefinition& x) -> bool {return isSameName(name, x.name);});
 				if(it != settings.equList.end())
 				{
 					Logger::printError(Logger::Error, "Equation name \"%s\" already defined", name);
@@ -140,7 +150,7 @@ static bool parseArguments(const std::vector<std::string>& arguments, ArmipsArgu
 				}
 
 				auto it = std::find_if(settings.labels.begin(), settings.labels.end(),
-						[&name](const LabelDefinition& x) -> bool {return name == x.name;});
+						[&name](const LabelDefinition& x) -> bool {return isSameName(name, x.name);});
 				if(it != settings.labels.end())
 				{
 					Logger::printError(Logger::Error, "Label name \"%s\" already defined", name);
-- 
2.43.0


From b4baca9f2d64285fa46fa6ca4a16b5077477385e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:44 +0000
Subject: [PATCH 107/121] fix: comparisons, logical and conditional operators
 do not hide an operand without a value

---
 Core/Expression.cpp | 62 +++++++++++++++++++++++++++++----------------
 1 file changed, 40 insertions(+), 22 deletions(-)

diff --git a/Core/Expression.cpp b/Core/Expression.cpp
index 9a68ee4..529e018 100644
--- a/Core/Expression.cpp
+++ b/Core/Expression.cpp
@@ -8,6 +8,8 @@
 #include "Parser/ExpressionParser.h"
 #include "Util/Util.h"
 
+#include <functional>
+
 namespace
 {
 	std::string to_string(int64_t value)
@@ -210,6 +212,9 @@ ExpressionValue ExpressionValue::operator%(const ExpressionValue& other) const
 ExpressionValue ExpressionValue::operator!() const
 {
 	ExpressionValue result;
+	if (!isValid())
+		return result;
+
 	result.type = ExpressionValueType::Integer;
 	
 	if (isFloat())
@@ -400,6 +405,9 @@ ExpressionValue ExpressionValue::operator^(const ExpressionValue& other) const
 ExpressionValue ExpressionValue::operator&&(const ExpressionValue& other) const
 {
 	ExpressionValue result;
+	if (!isValid() || !other.isValid())
+		return result;
+
 	result.type = ExpressionValueType::Integer;
 
 	switch (getValueCombination(type,other.type))
@@ -426,6 +434,9 @@ ExpressionValue ExpressionValue::operator&&(const ExpressionValue& other) const
 ExpressionValue ExpressionValue::operator||(const ExpressionValue& other) const
 {
 	ExpressionValue result;
+	if (!isValid() || !other.isValid())
+		return result;
+
 	result.type = ExpressionValueType::Integer;
 
 	switch (getValueCombination(type,other.type))
@@ -586,7 +597,15 @@ bool ExpressionInternal::simplify(bool inUnknownOrFalseBlock)
 		}
 
 		ExpressionValue zero(INT64_C(0));
-		auto selected = std::move(children[children[0]->evaluate() == zero ? 2 : 1]);
+		ExpressionValue condition = children[0]->evaluate();
+		if (!condition.isValid())
+		{
+			type = OperatorType::Invalid;
+			children.clear();
+			return true;
+		}
+
+		auto selected = std::move(children[condition == zero ? 2 : 1]);
 		type = selected->type;
 		value = std::move(selected->value);
 		fileNum = selected->fileNum;
@@ -633,6 +652,16 @@ bool ExpressionInternal::simplify(bool inUnknownOrFalseBlock)
 	return canSimplify;
 }
 
+// a comparison with an operand that has no value has none either
+template<typename T>
+static ExpressionValue compareValues(const ExpressionValue& a, const ExpressionValue& b, T comparison)
+{
+	if (!a.isValid() || !b.isValid())
+		return ExpressionValue();
+
+	return ExpressionValue(int64_t(comparison(a,b) ? 1 : 0));
+}
+
 ExpressionValue ExpressionInternal::evaluate()
 {
 	ExpressionValue val;
@@ -701,29 +730,17 @@ ExpressionValue ExpressionInternal::evaluate()
 	case OperatorType::RightShift:
 		return children[0]->evaluate() >> children[1]->evaluate();
 	case OperatorType::Less:
-		val.type = ExpressionValueType::Integer;
-		val.intValue = children[0]->evaluate() < children[1]->evaluate();
-		return val;
+		return compareValues(children[0]->evaluate(), children[1]->evaluate(), std::less<ExpressionValue>());
 	case OperatorType::Greater:
-		val.type = ExpressionValueType::Integer;
-		val.intValue = children[0]->evaluate() > children[1]->evaluate();
-		return val;
+		return compareValues(children[0]->evaluate(), children[1]->evaluate(), std::greater<ExpressionValue>());
 	case OperatorType::LessEqual:
-		val.type = ExpressionValueType::Integer;
-		val.intValue = children[0]->evaluate() <= children[1]->evaluate();
-		return val;
+		return compareValues(children[0]->evaluate(), children[1]->evaluate(), std::less_equal<ExpressionValue>());
 	case OperatorType::GreaterEqual:
-		val.type = ExpressionValueType::Integer;
-		val.intValue = children[0]->evaluate() >= children[1]->evaluate();
-		return val;
+		return compareValues(children[0]->evaluate(), children[1]->evaluate(), std::greater_equal<ExpressionValue>());
 	case OperatorType::Equal:
-		val.type = ExpressionValueType::Integer;
-		val.intValue = children[0]->evaluate() == children[1]->evaluate();
-		return val;
+		return compareValues(children[0]->evaluate(), children[1]->evaluate(), std::equal_to<ExpressionValue>());
 	case OperatorType::NotEqual:
-		val.type = ExpressionValueType::Integer;
-		val.intValue = children[0]->evaluate() != children[1]->evaluate();
-		return val;
+		return compareValues(children[0]->evaluate(), children[1]->evaluate(), std::not_equal_to<ExpressionValue>());
 	case OperatorType::BitAnd:
 		return children[0]->evaluate() & children[1]->evaluate();
 	case OperatorType::BitOr:
@@ -735,9 +752,10 @@ ExpressionValue ExpressionInternal::evaluate()
 	case OperatorType::Xor:
 		return children[0]->evaluate() ^ children[1]->evaluate();
 	case OperatorType::TertiaryIf:
-		val.type = ExpressionValueType::Integer;
-		val.intValue = 0;
-		if (children[0]->evaluate() == val)
+		val = children[0]->evaluate();
+		if (!val.isValid())
+			return val;
+		if (val == ExpressionValue(INT64_C(0)))
 			return children[2]->evaluate();
 		else
 			return children[1]->evaluate();
-- 
2.43.0


From 242f44989ab776c8d44281b509c3892d6d7550a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:50 +0000
Subject: [PATCH 108/121] fix: parameters of expression functions have to be
 separated by commas

---
 Parser/Parser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Parser/Parser.cpp b/Parser/Parser.cpp
index 0429830..019b4b4 100644
--- a/Parser/Parser.cpp
+++ b/Parser/Parser.cpp
@@ -472,8 +472,8 @@ bool Parser::parseFunctionDeclaration(Identifier& name, std::vector<Identifier>
 	parameters.clear();
 	while (!atEnd() && peekToken().type != TokenType::RParen)
 	{
-		if (!parameters.empty() && peekToken().type == TokenType::Comma)
-			eatToken();
+		if (!parameters.empty() && nextToken().type != TokenType::Comma)
+			return false;
 
 		const Token& token = nextToken();
 		if (token.type != TokenType::Identifier)
-- 
2.43.0


From b58c99a2f5e1f6a3eb35ae96e73dbd833353aefb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:58 +0000
Subject: [PATCH 109/121] fix: ldrd and strd of an odd register are rejected

---
 Archs/ARM/ArmOpcodes.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/Archs/ARM/ArmOpcodes.cpp b/Archs/ARM/ArmOpcodes.cpp
index d5d3f31..4099089 100644
--- a/Archs/ARM/ArmOpcodes.cpp
+++ b/Archs/ARM/ArmOpcodes.cpp
@@ -200,12 +200,12 @@ const tArmOpcode ArmOpcodes[] = {
 	{ "ldCsh",	"d0,[n0]",				0x01D000F0,	ARM_TYPE10,	ARM_D|ARM_N },
 	{ "ldCsh",	"d0,[n0,/#j\x08]",		0x01D000F0,	ARM_TYPE10,	ARM_D|ARM_N|ARM_IMMEDIATE|ARM_ABS },
 
-	{ "ldrCd",	"d0,[n0,m1]",			0x018000D0,	ARM_TYPE10,	ARM_D|ARM_N|ARM_REGISTER|ARM_M|ARM_ARM9 },
-	{ "ldrCd",	"d0,[n0]",				0x01C000D0,	ARM_TYPE10,	ARM_D|ARM_N|ARM_ARM9 },
-	{ "ldrCd",	"d0,[n0,/#j\x08]",		0x01C000D0,	ARM_TYPE10,	ARM_D|ARM_N|ARM_IMMEDIATE|ARM_ABS|ARM_ARM9 },
-	{ "strCd",	"d0,[n0,m1]",			0x018000F0,	ARM_TYPE10,	ARM_D|ARM_N|ARM_REGISTER|ARM_M|ARM_ARM9 },
-	{ "strCd",	"d0,[n0]",				0x01C000F0,	ARM_TYPE10,	ARM_D|ARM_N|ARM_ARM9 },
-	{ "strCd",	"d0,[n0,/#j\x08]",		0x01C000F0,	ARM_TYPE10,	ARM_D|ARM_N|ARM_IMMEDIATE|ARM_ABS|ARM_ARM9 },
+	{ "ldrCd",	"d0,[n0,m1]",			0x018000D0,	ARM_TYPE10,	ARM_D|ARM_N|ARM_REGISTER|ARM_M|ARM_ARM9|ARM_RDEVEN },
+	{ "ldrCd",	"d0,[n0]",				0x01C000D0,	ARM_TYPE10,	ARM_D|ARM_N|ARM_ARM9|ARM_RDEVEN },
+	{ "ldrCd",	"d0,[n0,/#j\x08]",		0x01C000D0,	ARM_TYPE10,	ARM_D|ARM_N|ARM_IMMEDIATE|ARM_ABS|ARM_ARM9|ARM_RDEVEN },
+	{ "strCd",	"d0,[n0,m1]",			0x018000F0,	ARM_TYPE10,	ARM_D|ARM_N|ARM_REGISTER|ARM_M|ARM_ARM9|ARM_RDEVEN },
+	{ "strCd",	"d0,[n0]",				0x01C000F0,	ARM_TYPE10,	ARM_D|ARM_N|ARM_ARM9|ARM_RDEVEN },
+	{ "strCd",	"d0,[n0,/#j\x08]",		0x01C000F0,	ARM_TYPE10,	ARM_D|ARM_N|ARM_IMMEDIATE|ARM_ABS|ARM_ARM9|ARM_RDEVEN },
 
 	{ "stmCA",	"/[n1/]W,/{R/}p",		0x08000000,	ARM_TYPE11,	ARM_STORE|ARM_N },
 	{ "ldmCA",	"/[n1/]W,/{R/}p",		0x08100000,	ARM_TYPE11,	ARM_LOAD|ARM_N },
-- 
2.43.0


From 1d5ab28d3cb41bb3399eadada2303af66c319bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:19 +0000
Subject: [PATCH 110/121] fix: messages about arguments do not carry the
 position of an earlier run

---
 Main/CommandLineInterface.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Main/CommandLineInterface.cpp b/Main/CommandLineInterface.cpp
index 6a57ee2..f976e56 100644
--- a/Main/CommandLineInterface.cpp
+++ b/Main/CommandLineInterface.cpp
@@ -213,6 +213,10 @@ static bool parseArguments(const std::vector<std::string>& arguments, ArmipsArgu
 
 int runFromCommandLine(const std::vector<std::string>& arguments, ArmipsArguments settings)
 {
+	// messages about the arguments belong to this run, not to one before it
+	Logger::clear();
+	Global.fileList.clear();
+
 	if (!parseArguments(arguments, settings))
 	{
 		if (arguments.size() > 1 && !settings.silent)
-- 
2.43.0


From 7f37b649134c18bd19547914dd874f185e811365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:22 +0000
Subject: [PATCH 111/121] fix: errors are returned to the caller also when the
 run stops early

---
 Core/Assembler.cpp | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/Core/Assembler.cpp b/Core/Assembler.cpp
index 120e6a1..a5397c5 100644
--- a/Core/Assembler.cpp
+++ b/Core/Assembler.cpp
@@ -145,6 +145,16 @@ static void printStats(const AllocationStats &stats)
 	}
 }
 
+static void returnErrors(const ArmipsArguments& settings)
+{
+	if (settings.errorsResult == nullptr)
+		return;
+
+	std::vector<std::string> errors = Logger::getErrors();
+	for (size_t i = 0; i < errors.size(); i++)
+		settings.errorsResult->push_back(errors[i]);
+}
+
 bool runArmips(ArmipsArguments& settings)
 {
 	// initialize and reset global data
@@ -198,7 +208,10 @@ bool runArmips(ArmipsArguments& settings)
 	}
 
 	if (Logger::hasError())
+	{
+		returnErrors(settings);
 		return false;
+	}
 
 	// run assembler
 	TextFile input;
@@ -209,6 +222,7 @@ bool runArmips(ArmipsArguments& settings)
 		if (!input.open(settings.inputFileName,TextFile::Read))
 		{
 			Logger::printError(Logger::Error, "Could not open file");
+			returnErrors(settings);
 			return false;
 		}
 		break;
@@ -234,12 +248,7 @@ bool runArmips(ArmipsArguments& settings)
 	}
 
 	// return errors
-	if (settings.errorsResult != nullptr)
-	{
-		std::vector<std::string> errors = Logger::getErrors();
-		for (size_t i = 0; i < errors.size(); i++)
-			settings.errorsResult->push_back(errors[i]);
-	}
+	returnErrors(settings);
 
 	if (settings.showStats)
 		printStats(Allocations::collectStats());
-- 
2.43.0


From a1dfbb78f77c0be7a727839854be33b9f498b5af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:27 +0000
Subject: [PATCH 112/121] fix: load delay settings do not leak into the next
 run

---
 Archs/MIPS/Mips.cpp | 5 +++++
 Archs/MIPS/Mips.h   | 1 +
 Core/Assembler.cpp  | 1 +
 3 files changed, 7 insertions(+)

diff --git a/Archs/MIPS/Mips.cpp b/Archs/MIPS/Mips.cpp
index 38ab5f1..dfedc95 100644
--- a/Archs/MIPS/Mips.cpp
+++ b/Archs/MIPS/Mips.cpp
@@ -7,6 +7,11 @@
 CMipsArchitecture Mips;
 
 CMipsArchitecture::CMipsArchitecture()
+{
+	clear();
+}
+
+void CMipsArchitecture::clear()
 {
 	FixLoadDelay = false;
 	IgnoreLoadDelay = false;
diff --git a/Archs/MIPS/Mips.h b/Archs/MIPS/Mips.h
index 5de8073..4bc5aa1 100644
--- a/Archs/MIPS/Mips.h
+++ b/Archs/MIPS/Mips.h
@@ -10,6 +10,7 @@ class CMipsArchitecture: public Architecture
 {
 public:
 	CMipsArchitecture();
+	void clear();
 	virtual std::unique_ptr<CAssemblerCommand> parseDirective(Parser& parser);
 	virtual std::unique_ptr<CAssemblerCommand> parseOpcode(Parser& parser);
 	virtual void registerExpressionFunctions(ExpressionFunctionHandler &handler);
diff --git a/Core/Assembler.cpp b/Core/Assembler.cpp
index a5397c5..09de8d3 100644
--- a/Core/Assembler.cpp
+++ b/Core/Assembler.cpp
@@ -177,6 +177,7 @@ bool runArmips(ArmipsArguments& settings)
 	Global.FileInfo.FileNum = 0;
 
 	Arm.clear();
+	Mips.clear();
 
 	ExpressionFunctionHandler::instance().reset();
 	registerExpressionFunctions(ExpressionFunctionHandler::instance());
-- 
2.43.0


From f304b34a2176b2a937d973e47ba995e29b14f137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:30 +0000
Subject: [PATCH 113/121] fix: pools of an earlier run are not counted in the
 statistics

---
 Core/Allocations.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Core/Allocations.cpp b/Core/Allocations.cpp
index 4ed8080..729446e 100644
--- a/Core/Allocations.cpp
+++ b/Core/Allocations.cpp
@@ -17,6 +17,8 @@ bool Allocations::keptPositions = false;
 void Allocations::clear()
 {
 	allocations.clear();
+	pools.clear();
+	subAreas.clear();
 	keepPositions = false;
 	nextKeepPositions = true;
 	keptPositions = false;
-- 
2.43.0


From d6026bc60543b858e6b13b8e1791a295893da0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:36 +0000
Subject: [PATCH 114/121] fix: a source from memory is a file of its own

---
 Parser/Parser.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Parser/Parser.cpp b/Parser/Parser.cpp
index 019b4b4..1a9ae0f 100644
--- a/Parser/Parser.cpp
+++ b/Parser/Parser.cpp
@@ -340,7 +340,8 @@ std::unique_ptr<CAssemblerCommand> Parser::parse(Tokenizer* tokenizer, bool virt
 	entry.tokenizer = tokenizer;
 	entry.virtualFile = virtualFile;
 
-	if (!virtualFile && !name.empty())
+	// a source from memory has no name, but it is a file of its own like any other
+	if (!virtualFile)
 	{
 		entry.fileNum = (int) Global.fileList.size();
 		Global.fileList.add(name);
-- 
2.43.0


From 27281da41728b9f2ec628becd035274274dc8a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:41 +0000
Subject: [PATCH 115/121] fix: characters outside the basic multilingual plane
 are kept

---
 Parser/Tokenizer.cpp |  4 ++++
 Util/FileClasses.cpp | 27 ++++++++++++++++++++++++---
 Util/Util.cpp        |  6 ++++++
 3 files changed, 34 insertions(+), 3 deletions(-)

diff --git a/Parser/Tokenizer.cpp b/Parser/Tokenizer.cpp
index 79a8276..a477d1e 100644
--- a/Parser/Tokenizer.cpp
+++ b/Parser/Tokenizer.cpp
@@ -27,6 +27,10 @@ namespace
 		{
 			extraBytes = 2;
 			value &= 0x0F;
+		} else if ((value & 0xF8) == 0xF0)
+		{
+			extraBytes = 3;
+			value &= 0x07;
 		}
 
 		for (size_t i = 0; i < extraBytes && index < source.size(); i++)
diff --git a/Util/FileClasses.cpp b/Util/FileClasses.cpp
index bc0c9bd..4c5cae7 100644
--- a/Util/FileClasses.cpp
+++ b/Util/FileClasses.cpp
@@ -21,6 +21,13 @@ namespace
 			dest += 0xC0 | ((character >> 6) & 0x1F);
 			dest += (0x80 | (character & 0x3F));
 		}
+		else if (character >= 0x10000)
+		{
+			dest += 0xF0 | ((character >> 18) & 0x7);
+			dest += 0x80 | ((character >> 12) & 0x3F);
+			dest += 0x80 | ((character >> 6) & 0x3F);
+			dest += 0x80 | (character & 0x3F);
+		}
 		else
 		{
 			dest += 0xE0 | ((character >> 12) & 0xF);
@@ -824,6 +831,10 @@ char32_t TextFile::readCharacter()
 			{
 				extraBytes = 2;
 				value &= 0x0F;
+			} else if ((value & 0xF8) == 0xF0)
+			{
+				extraBytes = 3;
+				value &= 0x07;
 			} else if (value > 0x7F)
 			{
 				errorText = tfm::format("One or more invalid UTF-8 characters in this file");
@@ -842,10 +853,20 @@ char32_t TextFile::readCharacter()
 		}
 		break;
 	case UTF16LE:
-		value = bufGet16LE();
-		break;
 	case UTF16BE:
-		value = bufGet16BE();
+		value = encoding == UTF16LE ? bufGet16LE() : bufGet16BE();
+
+		// characters outside of the basic multilingual plane use two code units
+		if (value >= 0xD800 && value < 0xDC00 && !atEnd())
+		{
+			long pos = tell();
+			char32_t low = encoding == UTF16LE ? bufGet16LE() : bufGet16BE();
+
+			if (low >= 0xDC00 && low < 0xE000)
+				value = 0x10000 + ((value - 0xD800) << 10) + (low - 0xDC00);
+			else
+				seek(pos);
+		}
 		break;
 	case SJIS:
 		{
diff --git a/Util/Util.cpp b/Util/Util.cpp
index 2aae6dc..3def247 100644
--- a/Util/Util.cpp
+++ b/Util/Util.cpp
@@ -15,6 +15,12 @@ std::string convertUnicodeCharToUtf8(char32_t character)
 	{
 		result += 0xC0 | ((character >> 6) & 0x1F);
 		result += (0x80 | (character & 0x3F));
+	} else if (character >= 0x10000)
+	{
+		result += 0xF0 | ((character >> 18) & 0x7);
+		result += 0x80 | ((character >> 12) & 0x3F);
+		result += 0x80 | ((character >> 6) & 0x3F);
+		result += 0x80 | (character & 0x3F);
 	} else {
 		result += 0xE0 | ((character >> 12) & 0xF);
 		result += 0x80 | ((character >> 6) & 0x3F);
-- 
2.43.0


From 37cc006244b31e098b60e5b8fe7cccebbd511de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:44 +0000
Subject: [PATCH 116/121] fix: invalid psr field letters are rejected

---
 Archs/ARM/ArmParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Archs/ARM/ArmParser.cpp b/Archs/ARM/ArmParser.cpp
index c004eea..2b9eed0 100644
--- a/Archs/ARM/ArmParser.cpp
+++ b/Archs/ARM/ArmParser.cpp
@@ -552,7 +552,7 @@ bool ArmParser::parsePsrTransfer(Parser& parser, ArmOpcodeVariables& vars, bool
 		}
 	}
 
-	return true;
+	return vars.PsrData.field != 0 && pos == stringValue.size();
 }
 
 bool ArmParser::parseArmParameters(Parser& parser, const tArmOpcode& opcode, ArmOpcodeVariables& vars)
-- 
2.43.0


From 55a9690514bc73162d8003bee6466c24d9f6180f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:36 +0000
Subject: [PATCH 117/121] fix: statistics of an area count all of it when
 another one is inside

---
 Core/Allocations.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Core/Allocations.cpp b/Core/Allocations.cpp
index 729446e..a26e166 100644
--- a/Core/Allocations.cpp
+++ b/Core/Allocations.cpp
@@ -224,11 +224,12 @@ void Allocations::collectAreaStats(AllocationStats &stats)
 			int64_t newUsageEnd = it.first.position + it.second.usage + getSubAreaUsage(it.first);
 
 			if (lastUsageEnd >= it.first.position)
-				lastUsage.usage += newUsageEnd - lastUsageEnd;
+				lastUsage.usage += std::max<int64_t>(newUsageEnd - lastUsageEnd, 0);
 			else
 				lastUsage.usage += it.second.usage + getSubAreaUsage(it.first);
 
-			lastEndPosition = it.first.position + it.second.space;
+			// the area may be inside of the last one
+			lastEndPosition = std::max(lastEndPosition, it.first.position + it.second.space);
 			lastUsage.space = lastEndPosition - lastKey.position;
 
 			continue;
-- 
2.43.0


From 745ef6ffe5cb7b66f59905ca2287a0655f17be33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:38 +0000
Subject: [PATCH 118/121] fix: blocks are allocated again when a region has
 moved

---
 Commands/CDirectiveArea.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Commands/CDirectiveArea.cpp b/Commands/CDirectiveArea.cpp
index 65cc61c..8b0bd8f 100644
--- a/Commands/CDirectiveArea.cpp
+++ b/Commands/CDirectiveArea.cpp
@@ -90,6 +90,10 @@ bool CDirectiveArea::Validate(const ValidateState &state)
 	if (areaSize != oldAreaSize || contentSize != oldContentSize)
 		result = true;
 
+	// what is allocated in a region has to move with it
+	if (shared && position != oldPosition)
+		result = true;
+
 	int64_t oldFileID = fileID;
 	fileID = g_fileManager->getOpenFileID();
 
-- 
2.43.0


From 801273174c455630094c242d63117984216b147b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:33 +0000
Subject: [PATCH 119/121] fix: a condition has the line and the local labels of
 its directive

---
 Parser/DirectivesParser.cpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/Parser/DirectivesParser.cpp b/Parser/DirectivesParser.cpp
index 40fb949..a3ecaec 100644
--- a/Parser/DirectivesParser.cpp
+++ b/Parser/DirectivesParser.cpp
@@ -244,6 +244,15 @@ std::unique_ptr<CAssemblerCommand> parseDirectiveConditional(Parser& parser, int
 		return nullptr;
 	}
 
+	// the condition has the line and the local labels of the directive, not those of the end of its blocks
+	std::unique_ptr<CDirectiveConditional> cond;
+	if (exp.isLoaded())
+		cond = std::make_unique<CDirectiveConditional>(type,exp);
+	else if (name.size() != 0)
+		cond = std::make_unique<CDirectiveConditional>(type, name);
+	else
+		cond = std::make_unique<CDirectiveConditional>(type);
+
 	parser.pushConditionalResult(condResult);
 	std::unique_ptr<CAssemblerCommand> ifBlock = parser.parseConditionalBlock({".else", ".elseif", ".elseifdef", ".elseifndef", ".endif"});
 	parser.popConditionalResult();
@@ -313,14 +322,6 @@ std::unique_ptr<CAssemblerCommand> parseDirectiveConditional(Parser& parser, int
 			return std::make_unique<DummyCommand>();
 	}
 
-	std::unique_ptr<CDirectiveConditional> cond;
-	if (exp.isLoaded())
-		cond = std::make_unique<CDirectiveConditional>(type,exp);
-	else if (name.size() != 0)
-		cond = std::make_unique<CDirectiveConditional>(type, name);
-	else
-		cond = std::make_unique<CDirectiveConditional>(type);
-
 	cond->setContent(std::move(ifBlock),std::move(elseBlock));
 	return cond;
 }
-- 
2.43.0


From 4532e7f4ce69b92ff639a26e915667e7b2585ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:50 +0000
Subject: [PATCH 120/121] fix: an endless recursion is reported as such

---
 Parser/Parser.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/Parser/Parser.cpp b/Parser/Parser.cpp
index 1a9ae0f..91fc15d 100644
--- a/Parser/Parser.cpp
+++ b/Parser/Parser.cpp
@@ -331,7 +331,8 @@ std::unique_ptr<CAssemblerCommand> Parser::parse(Tokenizer* tokenizer, bool virt
 
 	if (entries.size() >= 150)
 	{
-		Logger::queueError(Logger::Error, "Max include/recursion depth reached");
+		Logger::printError(Logger::Error, "Max include/recursion depth reached");
+		error = true;
 		maxDepthReached = true;
 		return nullptr;
 	}
@@ -805,7 +806,7 @@ std::unique_ptr<CAssemblerCommand> Parser::parseMacroCall()
 	// a macro is fully parsed once when it's loaded
 	// to gather all labels. it's not necessary to
 	// instantiate other macros at that time
-	if (initializingMacro)
+	if (initializingMacro || maxDepthReached)
 		return std::make_unique<DummyCommand>();
 
 	// every macro instance needs to be analyzed for labels, they
@@ -828,6 +829,8 @@ std::unique_ptr<CAssemblerCommand> Parser::parseMacroCall()
 
 		state.restore();
 
+		// reported by the actual instantiation
+		maxDepthReached = false;
 		initializingMacro = false;
 	}
 
-- 
2.43.0


From 24bd2ab11b28e0758683050360a50c9c171d2ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:03 +0000
Subject: [PATCH 121/121] fix: recursive equ from the command line is detected
 in any case

---
 Parser/Parser.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/Parser/Parser.cpp b/Parser/Parser.cpp
index 91fc15d..80f1607 100644
--- a/Parser/Parser.cpp
+++ b/Parser/Parser.cpp
@@ -12,6 +12,8 @@
 #include "Parser/ExpressionParser.h"
 #include "Util/Util.h"
 
+#include <algorithm>
+
 inline bool isPartOfList(const Identifier& value, const std::initializer_list<const char*>& terminators)
 {
 	for (const char* term: terminators)
@@ -374,11 +376,15 @@ void Parser::addEquation(const Token& startToken, const Identifier& name, const
 	FileTokenizer tok;
 	tok.init(&f);
 
+	// names from the command line can be in any case
+	std::string lowerName = name.string();
+	std::transform(lowerName.begin(), lowerName.end(), lowerName.begin(), ::tolower);
+
 	TokenizerPosition start = tok.getPosition();
 	while (!tok.atEnd() && tok.peekToken().type != TokenType::Separator)
 	{
 		const Token& token = tok.nextToken();
-		if (token.type == TokenType::Identifier && token.identifierValue() == name)
+		if (token.type == TokenType::Identifier && token.identifierValue() == lowerName)
 		{
 			printError(startToken, "Recursive equ definition for \"%s\" not allowed",name);
 			return;
-- 
2.43.0

