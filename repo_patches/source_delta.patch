From ddf0ca34a850ca0d31edd2cac84e3f3f31d29850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:43 +0000
Subject: [PATCH 01/62] fix: lexer accepts 64-bit numbers, rejects unreadable
 ones, does not stop at byte 0xFF

Numbers out of the int range threw std::out_of_range through the parser
and killed the process, '1.2.3' was read as 1.2, a 0xFF byte was taken
for the end of file (dropping the rest of the program) and long runs of
whitespace or comments overflowed the stack.
---
 src/common/parsing.cpp | 44 +++++++++++++++++++++++++-----------------
 src/common/parsing.h   | 12 +++++++-----
 2 files changed, 33 insertions(+), 23 deletions(-)

diff --git a/src/common/parsing.cpp b/src/common/parsing.cpp
index ec2cc2a..5a614b4 100644
--- a/src/common/parsing.cpp
+++ b/src/common/parsing.cpp
@@ -2,7 +2,7 @@
 
 TokenKind Lexer::ParseNumber() {
     bool is_float = false;
-    std::string num{lookahead};
+    std::string num{static_cast<char>(lookahead)};
     while (true) {
         lookahead = GetChar();
         if (lookahead == '.') {
@@ -13,13 +13,24 @@ TokenKind Lexer::ParseNumber() {
         }
         num += lookahead;
     }
-    if (is_float) {
-        float_number = std::stod(num);
-        return TokenKind::FLOAT;
-    } else {
-        number = std::stoi(num);
-        return TokenKind::NUM;
+    if (ignore) {
+        // The value is discarded anyway, so it can be arbitrary.
+        return is_float ? TokenKind::FLOAT : TokenKind::NUM;
+    }
+    try {
+        size_t parsed = 0;
+        if (is_float) {
+            float_number = std::stod(num, &parsed);
+        } else {
+            number = std::stoll(num, &parsed);
+        }
+        if (parsed != num.size()) {
+            throw ParserError(fmt::format("{}:{}:Malformed number '{}'", row, col, num));
+        }
+    } catch (const std::out_of_range&) {
+        throw ParserError(fmt::format("{}:{}:Number '{}' is out of range", row, col, num));
     }
+    return is_float ? TokenKind::FLOAT : TokenKind::NUM;
 }
 
 void Lexer::ParseString() {
@@ -38,7 +49,7 @@ void Lexer::ParseString() {
             } else if (lookahead == '\"') {
                 str += '\"';
             } else {
-                throw ParserError(fmt::format("Unknown escape sequence: '\\{}'", lookahead));
+                throw ParserError(fmt::format("Unknown escape sequence: '\\{}'", static_cast<char>(lookahead)));
             }
         } else {
             str += lookahead;
@@ -48,17 +59,14 @@ void Lexer::ParseString() {
 }
 
 Token Lexer::getNext() {
-    if (lookahead == '#') {
-        while (lookahead != EOF && lookahead != '\n') {
-            GetChar();
-        }
-        if (lookahead == '\n') {
+    while (lookahead == '#' || isspace(lookahead)) {
+        if (lookahead == '#') {
+            while (lookahead != EOF && lookahead != '\n') {
+                GetChar();
+            }
+        } else {
             GetChar();
         }
-        return getNext();
-    } else if (isspace(lookahead)) {
-        GetChar();
-        return getNext();
     }
 
     RecordTokLoc();
@@ -182,7 +190,7 @@ Token Lexer::getNext() {
             return getNext();
         } else {
             throw ParserError(fmt::format("{}:{}:No token beginning with '{}'",
-                                          row, col, lookahead));
+                                          row, col, static_cast<char>(lookahead)));
         }
     }
 }
diff --git a/src/common/parsing.h b/src/common/parsing.h
index 7f46a62..0da8535 100644
--- a/src/common/parsing.h
+++ b/src/common/parsing.h
@@ -1,4 +1,5 @@
 #pragma once
+#include <cstdint>
 #include <optional>
 #include <variant>
 #include <iostream>
@@ -93,7 +94,7 @@ public:
     }
 
     std::string getId() const { return id; }
-    int getNumber() const noexcept { return number; }
+    int64_t getNumber() const noexcept { return number; }
     double getFloat() const noexcept { return float_number; }
     std::string getStr() const noexcept { return str; }
 private:
@@ -105,7 +106,7 @@ private:
     }
 
     void ParseIdentifier() {
-        std::string str{lookahead};
+        std::string str{static_cast<char>(lookahead)};
         while (true) {
             GetChar();
             if (!isalnum(lookahead) && lookahead != '_') {
@@ -116,7 +117,7 @@ private:
         id = str;
     }
 
-    char GetChar() {
+    int GetChar() {
         if (lookahead == '\n') {
             row += 1;
             col = 0;
@@ -138,13 +139,14 @@ private:
     size_t tok_begin_row{0};
     size_t tok_begin_col{0};
 
-    int number{-1};
+    int64_t number{-1};
     double float_number{-1};
     std::string id;
     std::string str;
 
     std::istream& input;
-    char lookahead;
+    /// Either a character (as an unsigned char) or EOF.
+    int lookahead;
 
     bool ignore{false};
 };
-- 
2.43.0


From 05d5577bd7c6c6047024a74a35371be3d9ccd756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:43 +0000
Subject: [PATCH 02/62] fix: t86 parser handles signs before numbers properly

'-' not followed by a number reused the value of some previous literal
(PUSH -R1, MOV R0, [-1], MOV [0], -1.5), '- MOV' was taken for an
address, negative float immediates were refused, [R1 - R2] was read as
[R1 + R2] and [R1 + R2 *] hit an assert.
---
 src/t86-parser/parser.cpp | 37 +++++++++++++++++++++++++++++--------
 1 file changed, 29 insertions(+), 8 deletions(-)

diff --git a/src/t86-parser/parser.cpp b/src/t86-parser/parser.cpp
index c4c62a4..76a4c51 100644
--- a/src/t86-parser/parser.cpp
+++ b/src/t86-parser/parser.cpp
@@ -75,11 +75,13 @@ tiny::t86::FloatRegister Parser::FloatRegister() {
 
 /// Allows only immediate as operand
 int64_t Parser::Imm() {
-    if (IsNumber(curtok) || curtok.kind == TokenKind::MINUS) {
+    if (IsNumber(curtok)) {
         int neg = 1;
         if (curtok.kind == TokenKind::MINUS) {
             neg = -1;
-            GetNext();
+            if (GetNext() != TokenKind::NUM) {
+                throw CreateError("Expected a number after '-'");
+            }
         }
         auto val = neg * lex.getNumber();
         GetNext();
@@ -90,8 +92,12 @@ int64_t Parser::Imm() {
 }
 
 tiny::t86::Operand Parser::FloatImm() {
+    bool neg = curtok.kind == TokenKind::MINUS;
+    if (neg) {
+        GetNext();
+    }
     if (curtok.kind == TokenKind::FLOAT) {
-        double val = lex.getFloat();
+        double val = neg ? -lex.getFloat() : lex.getFloat();
         GetNext();
         return tiny::t86::Operand(val);
     } else {
@@ -102,7 +108,7 @@ tiny::t86::Operand Parser::FloatImm() {
 tiny::t86::Operand Parser::FloatImmOrRegister() {
     if (curtok.kind == TokenKind::ID) {
         return FloatRegister();
-    } else if (curtok.kind == TokenKind::FLOAT) {
+    } else if (curtok.kind == TokenKind::FLOAT || curtok.kind == TokenKind::MINUS) {
         return FloatImm();
     } else {
         throw CreateError("Expected either f or F");
@@ -227,8 +233,7 @@ tiny::t86::Operand Parser::Memory() {
         GetNext();
         // Must be [i]
         if (IsNumber(curtok)) {
-            auto imm = lex.getNumber();
-            GetNext();
+            auto imm = Imm();
             result = Mem(imm);
         } else if (curtok.kind == TokenKind::ID) {
             auto regname1 = lex.getId();
@@ -267,6 +272,9 @@ tiny::t86::Operand Parser::Memory() {
                         result = Mem(reg1 + imm1);
                     }
                 } else if (curtok.kind == TokenKind::ID) {
+                    if (minus) {
+                        throw CreateError("Registers can't be subtracted, expected i");
+                    }
                     auto regname2 = lex.getId();
                     auto reg2 = getRegister(regname2);
                     GetNext();
@@ -276,6 +284,8 @@ tiny::t86::Operand Parser::Memory() {
                         if (IsNumber(curtok)) {
                             auto imm = Imm();
                             result = Mem(reg1 + reg2 * imm);
+                        } else {
+                            throw CreateError("Expected 'i'");
                         }
                     // Must be [R + R]
                     } else {
@@ -322,7 +332,18 @@ tiny::t86::Operand Parser::Operand() {
         } else {
             return Register();
         }
-    } else if (IsNumber(curtok)) {
+    } else if (curtok.kind == TokenKind::MINUS) {
+        GetNext();
+        if (curtok.kind == TokenKind::FLOAT) {
+            double val = -lex.getFloat();
+            GetNext();
+            return tiny::t86::Operand(val);
+        } else if (curtok.kind == TokenKind::NUM) {
+            return -Imm();
+        } else {
+            throw CreateError("Expected a number after '-'");
+        }
+    } else if (curtok.kind == TokenKind::NUM) {
         return Imm();
     } else if (curtok.kind == TokenKind::FLOAT) {
         return FloatImm();
@@ -394,7 +415,7 @@ std::unique_ptr<tiny::t86::MOV> Parser::ParseMOV() {
 
 std::unique_ptr<tiny::t86::Instruction> Parser::Instruction() {
     // Address at the beginning is optional
-    if (IsNumber(curtok)) {
+    if (curtok.kind == TokenKind::NUM) {
         GetNext();
     }
 
-- 
2.43.0


From 88ee55c32b65cd22d72965168a2ecaa93da67994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:43 +0000
Subject: [PATCH 03/62] fix: displayed instructions denote the same literals

Float immediates were cut to six decimals and [-1] was printed as
[18446744073709551615], so writing an instruction back (which every
breakpoint does) changed or lost it.
---
 src/t86/cpu/memory.h             |  3 ++-
 src/t86/instructions/operand.cpp | 22 +++++++++++++++++++++-
 2 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/t86/cpu/memory.h b/src/t86/cpu/memory.h
index 14d4139..a145627 100644
--- a/src/t86/cpu/memory.h
+++ b/src/t86/cpu/memory.h
@@ -15,7 +15,8 @@ namespace tiny::t86::Memory {
         size_t index() const { return index_; }
 
         std::string toString() const {
-            return "[" + std::to_string(index_) + "]";
+            // Printed signed, as negative displacement is written.
+            return "[" + std::to_string(static_cast<int64_t>(index_)) + "]";
         }
 
     private:
diff --git a/src/t86/instructions/operand.cpp b/src/t86/instructions/operand.cpp
index c4bbc97..3a5faca 100644
--- a/src/t86/instructions/operand.cpp
+++ b/src/t86/instructions/operand.cpp
@@ -2,10 +2,30 @@
 #include "../cpu/memory.h"
 #include "helpers.h"
 
+#include <array>
 #include <cassert>
+#include <charconv>
+#include <cmath>
 
 
 namespace tiny::t86 {
+    namespace {
+        /// Shortest decimal representation (without an exponent) that
+        /// parses back to the same value.
+        std::string floatToString(double value) {
+            if (!std::isfinite(value)) {
+                return std::to_string(value);
+            }
+            std::array<char, 400> buffer;
+            auto [end, ec] = std::to_chars(buffer.data(), buffer.data() + buffer.size(), value, std::chars_format::fixed);
+            assert(ec == std::errc());
+            std::string result(buffer.data(), end);
+            if (result.find('.') == result.npos) {
+                result += ".0";
+            }
+            return result;
+        }
+    }
 
     Operand::Operand(int64_t value) : value_(value) {}
 
@@ -417,7 +437,7 @@ namespace tiny::t86 {
         } else if (isMemoryRegisterOffsetRegisterScaled()) {
             return getMemoryRegisterOffsetRegisterScaled().toString();
         } else if (isFloatValue()) {
-            return std::to_string(getFloatValue());
+            return floatToString(getFloatValue());
         } else if (isFloatRegister()) {
             return getFloatRegister().toString();
         }
-- 
2.43.0


From 3d39e2a05d2b44cce6086c52e2a979027d3f709b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:33 +0000
Subject: [PATCH 04/62] fix: LEA R, [R1 + R2] read past its operands

---
 src/t86/instruction.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/t86/instruction.cpp b/src/t86/instruction.cpp
index 07bc03e..7f02513 100644
--- a/src/t86/instruction.cpp
+++ b/src/t86/instruction.cpp
@@ -676,7 +676,7 @@ INS_NAME::INS_NAME(Operand address) : ConditionalJumpInstruction([](Alu::Flags f
             assert(operands.size() == 2);
             address = Operand::supply(
                     Operand::supply(mem_.getMemoryRegisterRegister(), operands[0].getValue()),
-                    operands[2].getValue()
+                    operands[1].getValue()
             ).index();
         }
         else if (mem_.isMemoryRegisterOffsetRegister()) {
-- 
2.43.0


From 3ddbcd780b650d0a1038dd219deba8934f4cd40a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:33 +0000
Subject: [PATCH 05/62] fix: dangling references to pending memory writes

MemoryWritesManager keeps references to elements of a vector, which get
invalidated as soon as a second write to the same address is pending or
finishes. Stores were lost, mixed up or written through freed memory.
---
 .../cpu/memory_writes_manager/memory_writes.cpp    |  4 ++--
 src/t86/cpu/memory_writes_manager/memory_writes.h  | 14 ++++++++------
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/t86/cpu/memory_writes_manager/memory_writes.cpp b/src/t86/cpu/memory_writes_manager/memory_writes.cpp
index 9526ca3..2676d90 100644
--- a/src/t86/cpu/memory_writes_manager/memory_writes.cpp
+++ b/src/t86/cpu/memory_writes_manager/memory_writes.cpp
@@ -4,11 +4,11 @@
 #include <algorithm>
 
 namespace tiny::t86 {
-    std::vector<MemoryWrite>::iterator MemoryWrites::find(MemoryWrite::Id id) {
+    std::list<MemoryWrite>::iterator MemoryWrites::find(MemoryWrite::Id id) {
         return std::lower_bound(writes_.begin(), writes_.end(), id, comp);
     }
 
-    std::vector<MemoryWrite>::const_iterator MemoryWrites::find(MemoryWrite::Id id) const {
+    std::list<MemoryWrite>::const_iterator MemoryWrites::find(MemoryWrite::Id id) const {
         return std::lower_bound(writes_.begin(), writes_.end(), id, comp);
     }
 
diff --git a/src/t86/cpu/memory_writes_manager/memory_writes.h b/src/t86/cpu/memory_writes_manager/memory_writes.h
index 9edf239..1204b69 100644
--- a/src/t86/cpu/memory_writes_manager/memory_writes.h
+++ b/src/t86/cpu/memory_writes_manager/memory_writes.h
@@ -3,6 +3,8 @@
 #include <utility>
 #include <optional>
 #include <set>
+#include <list>
+#include <vector>
 
 #include "../../ram.h"
 #include "memory_write.h"
@@ -43,14 +45,14 @@ namespace tiny::t86 {
             return e.id() > i;
         }
 
-        // This vector is sorted using comp function, so that we can find writes
+        // This list is sorted using comp function, so that we can find writes
         // with id up to some value
-        // List would have slow lookup times, but better insertions
         // Set does not allow modifications of it's elements once inserted
-        // Might change to list in the future after some benchmarking
-        std::vector<MemoryWrite> writes_;
+        // This must be a container with stable references, because
+        // MemoryWritesManager keeps references to the elements.
+        std::list<MemoryWrite> writes_;
 
-        std::vector<MemoryWrite>::iterator find(MemoryWrite::Id id);
-        std::vector<MemoryWrite>::const_iterator find(MemoryWrite::Id id) const;
+        std::list<MemoryWrite>::iterator find(MemoryWrite::Id id);
+        std::list<MemoryWrite>::const_iterator find(MemoryWrite::Id id) const;
     };
 }
-- 
2.43.0


From a2702fb2eca765b937ec995656b58892a51b5f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:33 +0000
Subject: [PATCH 06/62] fix: integer division without a result is a CPU error,
 shift amounts are checked

DIV, IDIV and MOD by zero, INT64_MIN / -1 (also inside of the IMUL overflow
check) killed the whole virtual machine with SIGFPE, even when they were
only executed speculatively. Shifts by 0 or more than 63 were undefined.
---
 src/t86/cpu/alu.cpp       | 32 +++++++++++++++++++++++++-------
 src/t86/execution_error.h |  1 +
 2 files changed, 26 insertions(+), 7 deletions(-)

diff --git a/src/t86/cpu/alu.cpp b/src/t86/cpu/alu.cpp
index 4132f59..3650e68 100644
--- a/src/t86/cpu/alu.cpp
+++ b/src/t86/cpu/alu.cpp
@@ -1,4 +1,5 @@
 #include "alu.h"
+#include "../execution_error.h"
 
 #include <limits>
 #include <cmath>
@@ -66,6 +67,9 @@ namespace tiny::t86::Alu {
     Result divide(int64_t x, int64_t y) {
         uint64_t ux = static_cast<uint64_t>(x);
         uint64_t uy = static_cast<uint64_t>(y);
+        if (uy == 0) {
+            throw T86ExecutionError("Division by zero");
+        }
         uint64_t uresult = ux / uy;
         int64_t result = static_cast<int64_t>(uresult);
         bool signFlag = result < 0;
@@ -76,15 +80,21 @@ namespace tiny::t86::Alu {
     }
 
     Result signed_multiply(int64_t x, int64_t y) {
-        int64_t result = x * y;
+        int64_t result;
+        bool overflowFlag = __builtin_mul_overflow(x, y, &result);
         bool signFlag = result < 0;
         bool zeroFlag = result == 0;
         bool carryFlag = false;
-        bool overflowFlag = x != 0 && y != 0 && x != result / y;
         return Result{result, Flags{signFlag, zeroFlag, carryFlag, overflowFlag}};
     }
 
     Result signed_divide(int64_t x, int64_t y) {
+        if (y == 0) {
+            throw T86ExecutionError("Division by zero");
+        }
+        if (x == std::numeric_limits<int64_t>::min() && y == -1) {
+            throw T86ExecutionError("Result of division is out of range");
+        }
         int64_t result = x / y;
         bool signFlag = result < 0;
         bool zeroFlag = result == 0;
@@ -130,12 +140,14 @@ namespace tiny::t86::Alu {
     }
 
     Result bit_left_shift(int64_t x, int64_t y) {
-        int64_t result = x << y;
+        // Amounts that do not fit shift all bits out
+        bool inRange = 0 <= y && y < 64;
+        int64_t result = inRange ? x << y : 0;
         bool signFlag = result < 0;
         bool zeroFlag = result == 0;
         bool overflowFlag = false;
         bool carryFlag = false;
-        if (y <= 64) {
+        if (0 < y && y <= 64) {
             // the most significant bit before the last shift
             carryFlag = (x << (y - 1)) < 0;
         }
@@ -143,12 +155,14 @@ namespace tiny::t86::Alu {
     }
 
     Result bit_right_shift(int64_t x, int64_t y) {
-        int64_t result = x >> y;
+        // Amounts that do not fit shift all bits out
+        bool inRange = 0 <= y && y < 64;
+        int64_t result = inRange ? x >> y : x >> 63;
         bool signFlag = result < 0;
         bool zeroFlag = result == 0;
         bool overflowFlag = false;
         bool carryFlag = false;
-        if (y <= 64) {
+        if (0 < y && y <= 64) {
             // the most significant bit before the last shift
             carryFlag = ((x >> (y - 1)) & 1) != 0;
         }
@@ -174,7 +188,11 @@ namespace tiny::t86::Alu {
     
     // TODO Remove after testing
     Result mod(int64_t x, int64_t y) {
-        int64_t result = x % y;
+        if (y == 0) {
+            throw T86ExecutionError("Division by zero");
+        }
+        // The remainder of INT64_MIN / -1 can't be computed directly
+        int64_t result = y == -1 ? 0 : x % y;
         bool signFlag = result < 0;
         bool zeroFlag = result == 0;
         bool carryFlag = false;
diff --git a/src/t86/execution_error.h b/src/t86/execution_error.h
index e1a08b8..fb127fc 100644
--- a/src/t86/execution_error.h
+++ b/src/t86/execution_error.h
@@ -1,3 +1,4 @@
+#pragma once
 #include <exception>
 #include <string>
 
-- 
2.43.0


From 500481831f5fb154c83e65b241b2f7501370e0b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:42 +0000
Subject: [PATCH 07/62] fix: CPU errors are precise and are raised only for
 executed instructions

Usage of a nonexistent register or a failed division raised the error
right when the instruction was decoded or executed, even on a wrongly
predicted path and before the preceding instructions finished. An
instruction with failed memory access was executed and retired (with its
output) anyway. Data larger than the memory terminated the process.
---
 src/t86/cpu/reservation_station.cpp | 58 ++++++++++++++++++-----------
 src/t86/cpu/reservation_station.h   | 14 ++++++-
 src/t86/os.cpp                      |  8 +++-
 3 files changed, 56 insertions(+), 24 deletions(-)

diff --git a/src/t86/cpu/reservation_station.cpp b/src/t86/cpu/reservation_station.cpp
index e0ec5cf..968d8f1 100644
--- a/src/t86/cpu/reservation_station.cpp
+++ b/src/t86/cpu/reservation_station.cpp
@@ -42,7 +42,7 @@ namespace tiny::t86 {
 
     void ReservationStation::fetchAndStartExecution() {
         // Loop through the rest and update them
-        for (auto& entry : entries_) {
+        for (auto& entry : entries_) try {
             switch (entry.state()) {
                 case Entry::State::preparing: {
                     entry.logPreparing();
@@ -138,6 +138,8 @@ namespace tiny::t86 {
                     entry.logStallRetirement();
                     break;
             }
+        } catch (...) {
+            entry.fault(std::current_exception());
         }
     }
 
@@ -154,7 +156,8 @@ namespace tiny::t86 {
         cpu_.setRegister(Register::ProgramCounter(), nextPc);
         RegisterAllocationTable readRat = cpu_.getRat();
         std::vector<MemoryWrite::Id> memWriteIds;
-        for (const auto& product : instruction->produces()) {
+        std::exception_ptr exception;
+        for (const auto& product : instruction->produces()) try {
             if (product.isRegister()) {
                 Register reg = product.getRegister();
                 // We always rename program counter
@@ -171,6 +174,9 @@ namespace tiny::t86 {
             } else {
                 assert(false && "Missing product type");
             }
+        } catch (...) {
+            // Register does not exist
+            exception = std::current_exception();
         }
         RegisterAllocationTable writeRat = cpu_.getRat();
         auto& entry = entries_.emplace_back(instruction, cpu_,
@@ -180,6 +186,10 @@ namespace tiny::t86 {
 
         // Log as preparing status
         entry.logPreparing();
+        if (exception) {
+            entry.fault(exception);
+            return;
+        }
         // Check if ready (for some instructions that do not have any operands)
         entry.checkReady();
     }
@@ -258,6 +268,7 @@ namespace tiny::t86 {
               memWriteIds_(std::move(memWriteIds)),
               maxWriteId_(maxWriteId),
               cpu_(cpu),
+              nextPc_(cpu.getRegister(readRat_.translate(Register::ProgramCounter()))),
               loggingId_(loggingId) {
         remainingExecutionTime_ = Cpu::Config::instance().getExecutionLength(instruction);
     }
@@ -275,13 +286,22 @@ namespace tiny::t86 {
         }
         // This is done "two-steps" because some instructions might have zero execution tickCount required
         if (remainingExecutionTime_ == 0) {
-            instruction_->execute(*this);
-            state_ = State::retiring;
+            try {
+                instruction_->execute(*this);
+                state_ = State::retiring;
+            } catch (...) {
+                fault(std::current_exception());
+            }
             return true;
         }
         return false;
     }
 
+    void ReservationStation::Entry::fault(std::exception_ptr exception) {
+        exception_ = exception;
+        state_ = State::retiring;
+    }
+
     ReservationStation::Entry::State ReservationStation::Entry::state() const {
         return state_;
     }
@@ -303,10 +323,17 @@ namespace tiny::t86 {
     }
 
     void ReservationStation::Entry::retire() {
-        instruction_->retire(*this);
-        // delay throwing illegal read exception until we know that the instruction will be executed
-        if (memoryAccessException_) {
-            std::rethrow_exception(memoryAccessException_);
+        try {
+            // delay throwing the exception until we know that the instruction will be executed
+            if (exception_) {
+                std::rethrow_exception(exception_);
+            }
+            instruction_->retire(*this);
+        } catch (...) {
+            // Forget everything the instruction and those after it did
+            cpu_.setRegister(readRat_.translate(Register::ProgramCounter()), nextPc_);
+            cpu_.unrollSpeculation(readRat_);
+            throw;
         }
 
         // Handle single step with trapflags here
@@ -338,20 +365,7 @@ namespace tiny::t86 {
     }
 
     std::optional<int64_t> ReservationStation::Entry::readMemory(uint64_t address) {
-        // A hack around reading from invalid memory cell in predictions, ie.
-        // MOV R0, -1
-        // RET
-        // MOV [R0], 1
-        // Would cause an error, because the MOV [R0 = -1] would cause this
-        // function to get called. This causes the exception to get thrown
-        // at retire. Meaning if the prediction was wrong the exception
-        // will not get thrown because retire does not happen.
-        try {
-            return cpu_.readMemory(address, maxWriteId_);
-        } catch(...) {
-            memoryAccessException_ = std::current_exception();
-            return {-1};
-        }
+        return cpu_.readMemory(address, maxWriteId_);
     }
 
     void ReservationStation::Entry::specifyWriteAddress(MemoryWrite::Id id, std::size_t address) {
diff --git a/src/t86/cpu/reservation_station.h b/src/t86/cpu/reservation_station.h
index a238f05..b5d31c3 100644
--- a/src/t86/cpu/reservation_station.h
+++ b/src/t86/cpu/reservation_station.h
@@ -10,6 +10,7 @@
 #include <vector>
 #include <optional>
 #include <condition_variable>
+#include <exception>
 
 namespace tiny::t86 {
     // Forward declaration
@@ -87,6 +88,15 @@ namespace tiny::t86 {
 
         bool executionTick();
 
+        /// Marks the instruction as failed. The instruction could have been predicted
+        /// wrongly, ie.
+        /// MOV R0, -1
+        /// RET
+        /// MOV R1, [R0]
+        /// so the exception is thrown no sooner than at retire. If the prediction
+        /// was wrong then the retire does not happen.
+        void fault(std::exception_ptr exception);
+
         const Instruction* instruction() const;
 
         const RegisterAllocationTable& rat() const;
@@ -168,10 +178,12 @@ namespace tiny::t86 {
 
         State state_ = State::preparing;
 
+        int64_t nextPc_;
+
         size_t remainingExecutionTime_;
 
         std::size_t loggingId_;
 
-        std::exception_ptr memoryAccessException_;
+        std::exception_ptr exception_;
     };
 }
diff --git a/src/t86/os.cpp b/src/t86/os.cpp
index e3803e5..2619e7b 100644
--- a/src/t86/os.cpp
+++ b/src/t86/os.cpp
@@ -26,7 +26,13 @@ void OS::DispatchInterrupt(int n) {
 }
 
 bool OS::Run(Program program) {
-    cpu.start(std::move(program));
+    try {
+        cpu.start(std::move(program));
+    } catch (const std::exception& e) {
+        log_error("The program can't be loaded! {}", e.what());
+        DebuggerMessage(Debug::BreakReason::CpuError);
+        return false;
+    }
     DebuggerMessage(Debug::BreakReason::Begin);
     log_info("Starting execution\n");
     while (true) {
-- 
2.43.0


From f5c82674ee1642f4d6f27e3443278bb0a15cc74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:42 +0000
Subject: [PATCH 08/62] fix: POP SP hit an assert, the popped value now takes
 precedence

---
 src/t86/instruction.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/t86/instruction.cpp b/src/t86/instruction.cpp
index 7f02513..f853eb9 100644
--- a/src/t86/instruction.cpp
+++ b/src/t86/instruction.cpp
@@ -554,7 +554,10 @@ INS_NAME::INS_NAME(Operand address) : ConditionalJumpInstruction([](Alu::Flags f
         const auto& operands = entry.operands();
         assert(operands.size() == 2);
         entry.setRegister(reg_, operands[0].getValue());
-        entry.setStackPointer(operands[1].getValue() + 1);
+        // Popped value takes precedence in POP SP
+        if (reg_ != Register::StackPointer()) {
+            entry.setStackPointer(operands[1].getValue() + 1);
+        }
     }
 
     void FPOP::execute(ReservationStation::Entry& entry) const {
-- 
2.43.0


From 99510f0bd90c29532c830eb54a7845d17ef3fcc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:42 +0000
Subject: [PATCH 09/62] fix: PUTNUM prints the whole register, GETCHAR yields
 -1 at the end of input

PUTNUM cut the value to 32 bits, GETCHAR stored an uninitialized value.
---
 src/t86/instruction.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/t86/instruction.cpp b/src/t86/instruction.cpp
index f853eb9..debcc5b 100644
--- a/src/t86/instruction.cpp
+++ b/src/t86/instruction.cpp
@@ -718,13 +718,16 @@ INS_NAME::INS_NAME(Operand address) : ConditionalJumpInstruction([](Alu::Flags f
     void PUTNUM::retire(ReservationStation::Entry& entry) const {
         const auto& operands = entry.operands();
         assert(operands.size() == 1);
-        os_ << static_cast<int>(operands[0].getValue()) << std::endl;
+        os_ << operands[0].getValue() << std::endl;
     }
 
     void GETCHAR::retire(ReservationStation::Entry& entry) const {
         char c;
-        is_ >> c;
-        entry.setRegister(reg_, c);
+        int64_t value = -1;
+        if (is_ >> c) {
+            value = c;
+        }
+        entry.setRegister(reg_, value);
     }
 
     void EXT::execute(ReservationStation::Entry& entry) const {
-- 
2.43.0


From 07c2a510309087ffa1d2f8cf4b62f9b995e937b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:58 +0000
Subject: [PATCH 10/62] fix: MOV with a float literal as its destination is
 rejected

---
 src/t86-parser/parser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/t86-parser/parser.cpp b/src/t86-parser/parser.cpp
index 76a4c51..e354af7 100644
--- a/src/t86-parser/parser.cpp
+++ b/src/t86-parser/parser.cpp
@@ -384,8 +384,8 @@ std::unique_ptr<tiny::t86::MOV> Parser::ParseMOV() {
     }
     GetNext();
     auto from = Operand();
-    if (dest.isValue() || dest.isRegisterOffset()) {
-        throw CreateError("MOV can't have i or R + i as dest");
+    if (dest.isValue() || dest.isFloatValue() || dest.isRegisterOffset()) {
+        throw CreateError("MOV can't have i, f or R + i as dest");
     } else if (dest.isRegister()) {
         // Allows almost everyting
         if (from.isRegisterOffset()) {
-- 
2.43.0


From c230c23715a35bdf2290f18f5b18f6d55f5f8471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:18 +0000
Subject: [PATCH 11/62] fix: text after a number is not ignored when reading
 numbers

---
 src/common/helpers.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/common/helpers.h b/src/common/helpers.h
index 8a9606b..1867159 100644
--- a/src/common/helpers.h
+++ b/src/common/helpers.h
@@ -71,7 +71,7 @@ namespace utils {
     inline std::optional<int64_t> svtoi64(std::string_view s) {
         int64_t result;
         auto [ptr, ec] { std::from_chars(s.data(), s.data() + s.size(), result) };
-        if (ec == std::errc()) {
+        if (ec == std::errc() && ptr == s.data() + s.size()) {
             return result;
         }
         return std::nullopt;
@@ -92,7 +92,7 @@ namespace utils {
 #endif
             T result;
             auto [ptr, ec] { std::from_chars(s.data(), s.data() + s.size(), result) };
-            if (ec == std::errc()) {
+            if (ec == std::errc() && ptr == s.data() + s.size()) {
                 return result;
             }
             return std::nullopt;
-- 
2.43.0


From dd57e6f5cefc4fafdfdfee74104978e8e9b05a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:53 +0000
Subject: [PATCH 12/62] fix: the debug interface answers malformed requests
 with an error instead of crashing the VM

---
 src/t86/debug.cpp | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/src/t86/debug.cpp b/src/t86/debug.cpp
index 9044c52..33524f5 100644
--- a/src/t86/debug.cpp
+++ b/src/t86/debug.cpp
@@ -32,10 +32,9 @@ namespace tiny::t86 {
             return Register::Flags();
         } 
         auto idx = utils::svtonum<size_t>(s.substr(1));
-        if (!idx) {
+        if (s[0] != 'R' || !idx || *idx >= cpu.registersCount()) {
             throw std::runtime_error(
-                    fmt::format("TranslateToRegister failed, got '{}' as index",
-                        s.substr(1)));
+                    fmt::format("TranslateToRegister failed, got '{}' as register", s));
         }
         log_debug("Register index: {}",* idx);
         return Register(*idx);
@@ -43,10 +42,9 @@ namespace tiny::t86 {
 
     FloatRegister Debug::TranslateToFloatRegister(std::string_view s) {
         auto idx = utils::svtonum<size_t>(s.substr(1));
-        if (!idx) {
+        if (s[0] != 'F' || !idx || *idx >= cpu.floatRegistersCount()) {
             throw std::runtime_error(
-                    fmt::format("TranslateToRegister failed, got '{}' as index",
-                        s.substr(1)));
+                    fmt::format("TranslateToFloatRegister failed, got '{}' as register", s));
         }
         log_debug("Float register index: {}",* idx);
         return FloatRegister(*idx);
@@ -54,7 +52,7 @@ namespace tiny::t86 {
 
     size_t Debug::TranslateToDebugRegister(std::string_view s) {
         auto idx = utils::svtonum<size_t>(s.substr(1));
-        if (!idx) {
+        if (s[0] != 'D' || !idx) {
             throw std::runtime_error(fmt::format("Wrong debug register,"
                        " expected D<index>, got '{}'", s));
         }
@@ -65,6 +63,7 @@ namespace tiny::t86 {
         std::istringstream is{std::string(s)};
         Parser parser(is);
         auto ins = parser.Instruction();
+        parser.CheckEnd();
         return ins;
     }
 
@@ -110,7 +109,7 @@ namespace tiny::t86 {
         log_info("Sending stop message to the debugger");
         messenger->Send("STOPPED");
         
-        while (true) {
+        while (true) try {
             log_info("Waiting for message from the debugger");
             auto message = messenger->Receive();
             // TODO: This means that we received EOF, which shouldn't
@@ -120,7 +119,7 @@ namespace tiny::t86 {
             }
             log_info("Received message '{}' from debugger", *message);
             auto commands = utils::split_v(*message, ' ');
-            auto command = commands[0];
+            auto command = commands.empty() ? std::string_view{} : commands[0];
             if (command == "REASON") {
                 std::string r = ReasonToString(reason);
                 messenger->Send(r);
@@ -130,6 +129,9 @@ namespace tiny::t86 {
             } else if (command.starts_with("PEEKTEXT")) {
                 auto index = svtoidx(commands.at(1));
                 auto count = svtoidx(commands.at(2));
+                if (index > cpu.textSize() || count > cpu.textSize() - index) {
+                    throw std::out_of_range("The text is not that long");
+                }
                 std::string result;
                 for (size_t i = index; i < index + count; ++i) {
                     result += cpu.getText(i).toString() + "\n";
@@ -139,6 +141,9 @@ namespace tiny::t86 {
                 // We unfortunately broke the instruction into several parts,
                 // need to glue it back together
                 auto index = svtoidx(commands.at(1));
+                if (commands.size() < 3) {
+                    throw std::runtime_error("Expected instruction as second arg");
+                }
                 // Glue the operands together
                 auto insBegin = std::next(commands.begin(), 3);
                 // The commas are already included
@@ -176,17 +181,17 @@ namespace tiny::t86 {
                 messenger->Send(regs);
             } else if (command == "POKEDEBUGREGS") {
                 auto reg = TranslateToDebugRegister(commands.at(1));
-                auto val = *utils::svtonum<uint64_t>(commands.at(2));
+                auto val = utils::svtonum<uint64_t>(commands.at(2)).value();
                 cpu.setDebugRegister(reg, val);
                 messenger->Send("OK");
             } else if (command.starts_with("POKEFLOATREGS")) {
                 auto reg = TranslateToFloatRegister(commands.at(1));
-                auto val = *utils::svtonum<double>(commands.at(2));
+                auto val = utils::svtonum<double>(commands.at(2)).value();
                 cpu.setFloatRegisterDebug(reg, val);
                 messenger->Send("OK");
             } else if (command.starts_with("POKEREGS")) {
                 auto reg = TranslateToRegister(commands.at(1));
-                auto val = *utils::svtonum<int64_t>(commands.at(2));
+                auto val = utils::svtonum<int64_t>(commands.at(2)).value();
                 cpu.setRegisterDebug(reg, val);
                 messenger->Send("OK");
             } else if (command == "SINGLESTEP") {
@@ -208,6 +213,11 @@ namespace tiny::t86 {
                 messenger->Send("UNKNOWN COMMAND");
                 continue;
             }
+        } catch (const TCP::TCPError&) {
+            throw; // There is no one to answer to
+        } catch (const std::exception& e) {
+            log_error("Can't fulfill the request: {}", e.what());
+            messenger->Send(fmt::format("ERROR {}", e.what()));
         }
 
         return true;
-- 
2.43.0


From 62be4d265f1de5016ea3845baa8ae6e0d59155cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:53 +0000
Subject: [PATCH 13/62] fix: single step ended by another event left the trap
 flag set

---
 src/t86/debug.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/t86/debug.cpp b/src/t86/debug.cpp
index 33524f5..c3b09a9 100644
--- a/src/t86/debug.cpp
+++ b/src/t86/debug.cpp
@@ -102,10 +102,8 @@ namespace tiny::t86 {
     /// which will communicate with the client.
     /// Should be called on any break situation.
     bool Debug::Work(BreakReason reason) {
-        if (reason == BreakReason::SingleStep) {
-            log_info("Debug handler: After singlestep");
-            cpu.unsetTrapFlag();
-        } 
+        // The step is over, even if it was some other event that ended it.
+        cpu.unsetTrapFlag();
         log_info("Sending stop message to the debugger");
         messenger->Send("STOPPED");
         
-- 
2.43.0


From fff8dbd0bfac3f7eaf350197ec1d20fdb2e2691c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:53 +0000
Subject: [PATCH 14/62] fix: memory modified by the debugger was shadowed by
 unfinished reads and writes

---
 src/t86/ram.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/t86/ram.cpp b/src/t86/ram.cpp
index 1797e99..acc49f7 100644
--- a/src/t86/ram.cpp
+++ b/src/t86/ram.cpp
@@ -75,6 +75,12 @@ namespace tiny::t86 {
 
     void RAM::set(std::size_t address, int64_t value) {
         mem_.at(address) = value;
+        // Operations which are still finishing hold the previous value
+        reads_.erase(address);
+        if (auto it = writes_.find(address); it != writes_.end()) {
+            writesById_.erase(it->second.id);
+            writes_.erase(it);
+        }
     }
 
     std::size_t RAM::size() const {
-- 
2.43.0


From d93f7fc2d384c6a5e96903a839dacf49278a9a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:53 +0000
Subject: [PATCH 15/62] fix: DATASIZE reports the size of the memory of the
 machine

---
 src/t86/cpu.h     | 2 ++
 src/t86/debug.cpp | 3 +--
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/t86/cpu.h b/src/t86/cpu.h
index d7f053b..e809e53 100644
--- a/src/t86/cpu.h
+++ b/src/t86/cpu.h
@@ -204,6 +204,8 @@ namespace tiny::t86 {
 
         size_t textSize() const { return program_.instructions().size(); }
 
+        size_t dataSize() const { return ram_.size(); }
+
         const Instruction& getText(uint64_t address);
 
         void setText(uint64_t address, std::unique_ptr<Instruction> ins);
diff --git a/src/t86/debug.cpp b/src/t86/debug.cpp
index c3b09a9..d3741e8 100644
--- a/src/t86/debug.cpp
+++ b/src/t86/debug.cpp
@@ -202,8 +202,7 @@ namespace tiny::t86 {
             } else if (command == "TEXTSIZE") {
                 messenger->Send(fmt::format("TEXTSIZE:{}", cpu.textSize()));
             } else if (command == "DATASIZE") {
-                messenger->Send(fmt::format("DATASIZE:{}",
-                                            Cpu::Config::instance().ramSize()));
+                messenger->Send(fmt::format("DATASIZE:{}", cpu.dataSize()));
             } else if (command == "TERMINATE") {
                 messenger->Send("OK");
                 return false;
-- 
2.43.0


From 1b9645eadc88dcd1576655a697c9e44b129ff883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:31 +0000
Subject: [PATCH 16/62] fix: BKPT instructions of the program itself are passed
 after they are reported

---
 src/debugger/Native.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/debugger/Native.cpp b/src/debugger/Native.cpp
index e2b1d8b..4fdddb7 100644
--- a/src/debugger/Native.cpp
+++ b/src/debugger/Native.cpp
@@ -323,15 +323,19 @@ DebugEvent Native::WaitForDebugEvent() {
     if (cached_event) {
         reason = *cached_event;
         cached_event.reset();
+        return reason;
     } else {
         process->Wait();
         reason = MapReasonToEvent(process->GetReason());
     }
 
-    if (std::holds_alternative<BreakpointHit>(reason)) {
-        auto regs = GetRegisters();
-        regs.at("IP") -= 1;
-        SetRegisters(regs);
+    if (auto hit = std::get_if<BreakpointHit>(&reason)) {
+        // Return to the instruction replaced by the breakpoint,
+        // unless the BKPT is a part of the program.
+        auto bp = software_breakpoints.find(hit->address);
+        if (bp != software_breakpoints.end() && bp->second.enabled) {
+            process->SetRegisters({{Arch::GetIPRegister(), hit->address}});
+        }
     }
     return reason;
 }
-- 
2.43.0


From c0f69623df750af6ebab75b0de9f33821e017055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:31 +0000
Subject: [PATCH 17/62] fix: rewriting text with an invalid instruction or
 under a disabled breakpoint

---
 src/debugger/Native.cpp     | 18 ++++++++++--------
 src/debugger/T86Process.cpp |  2 ++
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/debugger/Native.cpp b/src/debugger/Native.cpp
index 4fdddb7..d032cd9 100644
--- a/src/debugger/Native.cpp
+++ b/src/debugger/Native.cpp
@@ -53,7 +53,7 @@ void Native::DisableSoftwareBreakpoint(uint64_t address) {
 std::vector<std::string> Native::ReadText(uint64_t address, size_t amount) {
     // TODO: Needs to replace if some breakpoints are set.
     auto text_size = TextSize();
-    if (address + amount > text_size) {
+    if (address > text_size || amount > text_size - address) {
         throw DebuggerError(
             fmt::format("Reading text at range {}-{}, but text size is {}",
                         address, address + amount, text_size));
@@ -73,24 +73,26 @@ std::vector<std::string> Native::ReadText(uint64_t address, size_t amount) {
 
 void Native::WriteText(uint64_t address, std::vector<std::string> text) {
     auto text_size = TextSize();
-    if (address + text.size() > text_size) {
+    if (address > text_size || text.size() > text_size - address) {
         throw DebuggerError(
             fmt::format("Writing text at range {}-{}, but text size is {}",
                         address, address + text.size(), text_size));
     }
-    // Some of the code we want to rewrite might
-    // be occupied by a breakpoint, so instead
-    // we write it into its saved data and
-    // persist the breakpoint in the debuggee.
+    process->WriteText(address, text);
+    // Some of the code we have rewritten might
+    // be occupied by a breakpoint, we write it
+    // into its saved data and persist the
+    // breakpoint in the debuggee.
     for (size_t i = 0; i < text.size(); ++i) {
         uint64_t curr_addr = i + address;
         auto bp = software_breakpoints.find(curr_addr);
         if (bp != software_breakpoints.end()) {
             bp->second.data = text[i];
-            text[i] = GetSoftwareBreakpointOpcode();
+            if (bp->second.enabled) {
+                process->WriteText(curr_addr, {std::string(GetSoftwareBreakpointOpcode())});
+            }
         }
     }
-    process->WriteText(address, text);
 }
 
 DebugEvent Native::PerformSingleStep() {
diff --git a/src/debugger/T86Process.cpp b/src/debugger/T86Process.cpp
index 69cde65..1a33fe1 100644
--- a/src/debugger/T86Process.cpp
+++ b/src/debugger/T86Process.cpp
@@ -16,6 +16,8 @@ void T86Process::WriteText(uint64_t address,
         } catch (const ParserError& err) {
             throw DebuggerError(fmt::format("Error in parsing instruction: {}", err.what()));
         }
+    }
+    for (size_t i = 0; i < data.size(); ++i) {
         process->Send(fmt::format("POKETEXT {} {}", address + i, data[i]));
         CheckResponse("POKETEXT error");
     }
-- 
2.43.0


From 7dba51c23b58009e213ae716f5e598c07b0c2a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:31 +0000
Subject: [PATCH 18/62] fix: requests out of range are reported to the user of
 the debugger

---
 src/debugger/Native.cpp     |  3 +++
 src/debugger/T86Process.cpp | 12 ++++++++++--
 src/debugger/T86Process.h   |  7 +++++++
 3 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/debugger/Native.cpp b/src/debugger/Native.cpp
index d032cd9..c38bab3 100644
--- a/src/debugger/Native.cpp
+++ b/src/debugger/Native.cpp
@@ -445,6 +445,9 @@ std::string_view Native::GetSoftwareBreakpointOpcode() const {
 
 SoftwareBreakpoint Native::CreateSoftwareBreakpoint(uint64_t address) {
     auto opcode = GetSoftwareBreakpointOpcode();
+    if (address >= TextSize()) {
+        throw DebuggerError(fmt::format("No instruction at address {}", address));
+    }
     auto backup = process->ReadText(address, 1).at(0);
 
     std::vector<std::string> data = {std::string(opcode)};
diff --git a/src/debugger/T86Process.cpp b/src/debugger/T86Process.cpp
index 1a33fe1..9245115 100644
--- a/src/debugger/T86Process.cpp
+++ b/src/debugger/T86Process.cpp
@@ -32,12 +32,13 @@ std::vector<std::string> T86Process::ReadText(uint64_t address, size_t amount) {
     if (!text) {
         throw DebuggerError("PEEKTEXT err");
     }
+    CheckNotError(*text);
 
     return utils::split(*text, '\n');
 }
 
 void T86Process::WriteMemory(uint64_t address, const std::vector<int64_t>& data) {
-    if (address + data.size() > data_size) {
+    if (address > data_size || data.size() > data_size - address) {
         throw DebuggerError(fmt::format("Writing memory at {}-{}, but size is {}",
                     address, address + data.size() - 1, data_size));
     }
@@ -48,7 +49,7 @@ void T86Process::WriteMemory(uint64_t address, const std::vector<int64_t>& data)
 }
 
 std::vector<int64_t> T86Process::ReadMemory(uint64_t address, size_t amount) {
-    if (address + amount > data_size) {
+    if (address > data_size || amount > data_size - address) {
         throw DebuggerError(fmt::format("Reading memory at {}-{}, but size is {}",
                     address, address + amount - 1, data_size));
     }
@@ -57,6 +58,7 @@ std::vector<int64_t> T86Process::ReadMemory(uint64_t address, size_t amount) {
     if (!data) {
         throw DebuggerError("PEEKDATA err");
     }
+    CheckNotError(*data);
 
     auto splitted = utils::split(*data, '\n');
     std::vector<int64_t> result;
@@ -216,6 +218,12 @@ bool T86Process::IsValidDebugRegisterName(std::string_view name) const {
     return false;
 }
 
+void T86Process::CheckNotError(const std::string& response) {
+    if (response.starts_with("ERROR")) {
+        throw DebuggerError(fmt::format("T86 VM can't fulfill the request: {}", response));
+    }
+}
+
 void T86Process::CheckResponse(std::string_view error_message) {
     auto message = process->Receive();
     if (!message || *message != "OK") {
diff --git a/src/debugger/T86Process.h b/src/debugger/T86Process.h
index e6172eb..88b6fd3 100644
--- a/src/debugger/T86Process.h
+++ b/src/debugger/T86Process.h
@@ -91,6 +91,10 @@ private:
     template<typename T>
     std::map<std::string, T> FetchRegistersOfType() {
         auto regs = process->Receive();
+        if (!regs) {
+            throw DebuggerError("Fetching registers: no response");
+        }
+        CheckNotError(*regs);
         auto lines = utils::split_v(*regs, '\n');
         std::map<std::string, T> result;
         for (const auto& line: lines) {
@@ -111,6 +115,9 @@ private:
 
     bool IsValidDebugRegisterName(std::string_view name) const;
 
+    /// Throws if the VM refused the request.
+    void CheckNotError(const std::string& response);
+
     void CheckResponse(std::string_view error_message);
 
     std::unique_ptr<Messenger> process;
-- 
2.43.0


From 87e62ccdb67fe255f14991a9c7fefd4a5e1b8edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:31 +0000
Subject: [PATCH 19/62] fix: setting one register does not write the others

---
 src/debugger/Native.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/debugger/Native.cpp b/src/debugger/Native.cpp
index c38bab3..d564e2f 100644
--- a/src/debugger/Native.cpp
+++ b/src/debugger/Native.cpp
@@ -217,8 +217,7 @@ void Native::SetFloatRegister(const std::string& name, double value) {
     if (!fregs.contains(name)) {
         throw DebuggerError(fmt::format("'{}' is not float register", name));
     }
-    fregs.at(name) = value;
-    SetFloatRegisters(fregs);
+    SetFloatRegisters({{name, value}});
 }
 
 double Native::GetFloatRegister(const std::string& name) {
@@ -254,8 +253,7 @@ void Native::SetRegister(const std::string& name, int64_t value) {
         // registers).
         throw DebuggerError(fmt::format("Unknown '{}' register name!", name)); 
     }
-    regs.at(name) = value;
-    SetRegisters(regs);
+    SetRegisters({{name, value}});
 }
 
 void Native::SetAllBreakpoints(std::map<uint64_t, SoftwareBreakpoint> bkpts) {
-- 
2.43.0


From 24b3bf92523d062ba408807501dbf997a393c837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:31 +0000
Subject: [PATCH 20/62] fix: removed watchpoints stayed active, replacing
 breakpoints and watchpoints

---
 src/debugger/Native.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/debugger/Native.cpp b/src/debugger/Native.cpp
index d564e2f..8cd88ec 100644
--- a/src/debugger/Native.cpp
+++ b/src/debugger/Native.cpp
@@ -258,8 +258,8 @@ void Native::SetRegister(const std::string& name, int64_t value) {
 
 void Native::SetAllBreakpoints(std::map<uint64_t, SoftwareBreakpoint> bkpts) {
     // Unset existing breakpoints
-    for (auto&& bp: software_breakpoints) {
-        DisableSoftwareBreakpoint(bp.first);
+    while (!software_breakpoints.empty()) {
+        UnsetBreakpoint(software_breakpoints.begin()->first);
     }
 
     for (auto&& breakpoint: bkpts) {
@@ -273,8 +273,8 @@ void Native::SetAllBreakpoints(std::map<uint64_t, SoftwareBreakpoint> bkpts) {
 }
 
 void Native::SetAllWatchpoints(std::map<uint64_t, Watchpoint> watchpoints) {
-    for (auto&& wp: this->watchpoints) {
-        RemoveWatchpoint(wp.first);
+    while (!this->watchpoints.empty()) {
+        RemoveWatchpoint(this->watchpoints.begin()->first);
     }
 
     for (auto&& wp: watchpoints) {
@@ -381,11 +381,12 @@ void Native::SetWatchpointWrite(uint64_t address) {
 void Native::RemoveWatchpoint(uint64_t address) {
     auto wp = watchpoints.find(address);
     if (wp == watchpoints.end()) {
-        throw DebuggerError("A watchpoint is already set on that address.");
+        throw DebuggerError("No watchpoint is set on that address.");
     }
     
     auto dbg_regs = process->FetchDebugRegisters();
     Arch::DeactivateDebugRegister(wp->second.hw_reg, dbg_regs);
+    process->SetDebugRegisters(dbg_regs);
     watchpoints.erase(address); 
 }
 
-- 
2.43.0


From f4c7253d9b89ea90b21ed32e2ea2db330a693927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:34 +0000
Subject: [PATCH 21/62] fix: step over a call reports the events on the way and
 minds disabled breakpoints

---
 src/debugger/Native.cpp | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/debugger/Native.cpp b/src/debugger/Native.cpp
index 8cd88ec..f6fdaa8 100644
--- a/src/debugger/Native.cpp
+++ b/src/debugger/Native.cpp
@@ -123,20 +123,24 @@ DebugEvent Native::PerformStepOver(bool skip_bp) {
     auto is_call = std::find_if(calls.begin(), calls.end(),
                                 [&text](auto&& ins) { return text.starts_with(ins); });
     if (is_call != calls.end()) {
+        // Execute the call itself, the breakpoint on it is passed only if asked to.
+        DebugEvent e = skip_bp ? PerformSingleStep() : DoRawSingleStep();
+        if (!std::holds_alternative<Singlestep>(e)) {
+            return e;
+        }
         bool bp_exists = software_breakpoints.contains(ip + 1);
+        bool bp_enabled = bp_exists && software_breakpoints.at(ip + 1).enabled;
         if (!bp_exists) {
             SetBreakpoint(ip + 1); 
-        }
-        // To step over a breakpoint on current line.
-        if (skip_bp) {
-            PerformSingleStep();
+        } else {
+            EnableSoftwareBreakpoint(ip + 1);
         }
         // There is a problem with recursive functions. They can hit the breakpoint
         // also. We do this bold heuristic where we check if the BP is the same,
         // because functions with some normal calling convention have to backup
         // this guy, especially if they're recursive.
         auto bp = GetRegister("BP");
-        DebugEvent e;
+        bool returned = false;
         while (true) {
             ContinueExecution();
             e = WaitForDebugEvent();
@@ -144,11 +148,12 @@ DebugEvent Native::PerformStepOver(bool skip_bp) {
             if (bp == GetRegister("BP")
                     && GetIP() == ip + 1
                     && std::holds_alternative<BreakpointHit>(e)) {
+                returned = true;
                 break;
             }
             // If other breakpoint happened
             if (std::holds_alternative<BreakpointHit>(e)
-                    && GetIP() != ip + 1) {
+                    && (bp_enabled || GetIP() != ip + 1)) {
                 break;
             }
             // Totally other event
@@ -159,9 +164,11 @@ DebugEvent Native::PerformStepOver(bool skip_bp) {
 
         if (!bp_exists) {
             UnsetBreakpoint(ip + 1);
+        } else if (!bp_enabled) {
+            DisableSoftwareBreakpoint(ip + 1);
         }
         // We probably hit some other breakpoint in the call.
-        if (GetIP() != ip + 1) {
+        if (!returned) {
             return e;
         } else {
             return Singlestep{};
-- 
2.43.0


From 089c4bd42cd98fae50b09385f90571447864f5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:40 +0000
Subject: [PATCH 22/62] fix: TCP messages survive fragmentation, lost
 connections are reported

---
 src/common/TCP.h | 66 +++++++++++++++++++++++++++++++++++-------------
 src/t86/os.cpp   |  7 ++++-
 2 files changed, 54 insertions(+), 19 deletions(-)

diff --git a/src/common/TCP.h b/src/common/TCP.h
index b3960f4..598ae14 100644
--- a/src/common/TCP.h
+++ b/src/common/TCP.h
@@ -4,6 +4,8 @@
 
 #include <iostream>
 #include <vector>
+#include <algorithm>
+#include <cerrno>
 #include <cstdlib>
 #include <sys/socket.h>
 #include <unistd.h>
@@ -52,7 +54,15 @@ private:
 inline void SendRaw(int socket, const uint8_t* data, size_t size) {
     size_t sent = 0;
     while (sent < size) {
-        sent += send(socket, &data[sent], size - sent, 0);
+        // A closed connection is reported as an error, not as a signal
+        ssize_t n = send(socket, &data[sent], size - sent, MSG_NOSIGNAL);
+        if (n < 0) {
+            if (errno == EINTR) {
+                continue;
+            }
+            throw TCPError("Sending failed");
+        }
+        sent += n;
     }
 }
 
@@ -66,30 +76,41 @@ inline void Send(int socket, const std::string& s) {
     SendRaw(socket, reinterpret_cast<const uint8_t*>(s.c_str()), s.length());
 }
 
+/// Reads exactly 'size' bytes, returns false if the connection ended before that.
+inline bool ReceiveRaw(int socket, uint8_t* data, size_t size) {
+    size_t received = 0;
+    while (received < size) {
+        ssize_t n = read(socket, data + received, size - received);
+        if (n < 0) {
+            if (errno == EINTR) {
+                continue;
+            }
+            throw TCPError("Reading failed");
+        } else if (n == 0) {
+            return false;
+        }
+        received += n;
+    }
+    return true;
+}
+
 inline std::optional<std::string> Receive(int socket) {
     // The messages are in form 8b | data
     size_t size = 0;
-    int err = read(socket, &size, sizeof(size_t));
-    if (err < 0) {
-        throw TCPError("Reading failed");
-    } if (err == 0) {
+    if (!ReceiveRaw(socket, reinterpret_cast<uint8_t*>(&size), sizeof(size_t))) {
         return std::nullopt;
     }
 
-    size_t received = 0;
-    std::vector<uint8_t> data(size);
-    while (received < size) {
-        int err = read(socket, data.data() + received, size - received);
-        if (err < 0) {
-            throw TCPError("Reading failed");
-        } else if (err == 0) {
+    std::string result;
+    // Do not allocate more than what is really received
+    while (result.size() < size) {
+        size_t received = result.size();
+        size_t chunk = std::min<size_t>(size - received, 1 << 20);
+        result.resize(received + chunk);
+        if (!ReceiveRaw(socket, reinterpret_cast<uint8_t*>(result.data()) + received, chunk)) {
             return std::nullopt;
         }
-        received += err;
     }
-    // Unecessary copy, but since the messages will be very small we frankly
-    // dont care
-    std::string result(data.begin(), data.end());
     return result;
 }
 
@@ -121,7 +142,7 @@ public:
 protected:
     bool initialized = false;
     int port;
-    int sock;
+    int sock = -1;
 };
 
 class TCPClient : public TCP<TCPClient> {
@@ -195,15 +216,24 @@ public:
 
         int addrlen = sizeof(address);
         sock = accept(server_fd, (sockaddr*)&address, (socklen_t*)&addrlen);
+        if (sock < 0) {
+            throw TCPError("Accept error");
+        }
     }
 
     ~TCPServer() {
         if (initialized) {
             shutdown(server_fd, SHUT_RDWR);
         }
+        if (sock >= 0) {
+            close(sock);
+        }
+        if (server_fd >= 0) {
+            close(server_fd);
+        }
     }
 protected:
-    int server_fd;
+    int server_fd = -1;
 };
 
 }
diff --git a/src/t86/os.cpp b/src/t86/os.cpp
index 2619e7b..4de5536 100644
--- a/src/t86/os.cpp
+++ b/src/t86/os.cpp
@@ -63,7 +63,12 @@ bool OS::Run(Program program) {
 
 void OS::DebuggerMessage(Debug::BreakReason reason) {
     if (debug_interface) {
-        stop = !debug_interface->Work(reason);
+        try {
+            stop = !debug_interface->Work(reason);
+        } catch (const TCP::TCPError& e) {
+            log_error("Connection to the debugger was lost: {}", e.what());
+            stop = true;
+        }
     } else {
         log_info("Call to debugger interface was initiated but no "
                     "debugger is connected!");
-- 
2.43.0


From 063d6a8ba2b7878e55f2f3f171b08df314ceab4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:27 +0000
Subject: [PATCH 23/62] fix: step over stops at a breakpoint at the beginning
 of the called function

---
 src/debugger/Native.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/debugger/Native.cpp b/src/debugger/Native.cpp
index f6fdaa8..4e5830a 100644
--- a/src/debugger/Native.cpp
+++ b/src/debugger/Native.cpp
@@ -128,6 +128,10 @@ DebugEvent Native::PerformStepOver(bool skip_bp) {
         if (!std::holds_alternative<Singlestep>(e)) {
             return e;
         }
+        auto entry = software_breakpoints.find(GetIP());
+        if (entry != software_breakpoints.end() && entry->second.enabled) {
+            return BreakpointHit{BPType::Software, entry->first};
+        }
         bool bp_exists = software_breakpoints.contains(ip + 1);
         bool bp_enabled = bp_exists && software_breakpoints.at(ip + 1).enabled;
         if (!bp_exists) {
-- 
2.43.0


From b116b6228e03a3ed7cfde006fc17accc485c4847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:27 +0000
Subject: [PATCH 24/62] fix: location programs underflowing the stack,
 DEREFERENCE of an offset

---
 src/debugger/Source/ExpressionInterpreter.cpp | 20 ++++++++++++-------
 src/debugger/Source/ExpressionInterpreter.h   |  3 +++
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/debugger/Source/ExpressionInterpreter.cpp b/src/debugger/Source/ExpressionInterpreter.cpp
index b42ed87..ea1eacd 100644
--- a/src/debugger/Source/ExpressionInterpreter.cpp
+++ b/src/debugger/Source/ExpressionInterpreter.cpp
@@ -47,6 +47,15 @@ expr::Location ExpressionInterpreter::AddOperands(const expr::Location& o1,
     }, o1);
 }
 
+expr::Location ExpressionInterpreter::Pop() {
+    if (s.empty()) {
+        throw DebuggerError("Not enough values on the stack in location expression evaluation.");
+    }
+    auto v = s.top();
+    s.pop();
+    return v;
+}
+
 void ExpressionInterpreter::Interpret() {
     for (const auto& ins: exprs) {
         std::visit(utils::overloaded {
@@ -54,10 +63,8 @@ void ExpressionInterpreter::Interpret() {
                 s.push(ins.value);
             },
             [&](const expr::Add& ins) {
-                auto v1 = s.top();
-                s.pop();
-                auto v2 = s.top();
-                s.pop();
+                auto v1 = Pop();
+                auto v2 = Pop();
                 auto res = AddOperands(v1, v2);
                 s.push(std::move(res));
             },
@@ -67,15 +74,14 @@ void ExpressionInterpreter::Interpret() {
                 s.push(expr::Offset{loc});
             },
             [&](const expr::Dereference& ins) {
-                auto v1 = s.top();
+                auto v1 = Pop();
                 auto v = std::visit(utils::overloaded {
                         [&](const expr::Register& reg) {
                             auto idx = native.GetRegister(reg.name);
                             return native.ReadMemory(idx, 1)[0];
                         },
                         [&](const expr::Offset& offset) {
-                            auto idx = native.ReadMemory(offset.value, 1)[0];
-                            return native.ReadMemory(idx, 1)[0];
+                            return native.ReadMemory(offset.value, 1)[0];
                         }
                 }, v1);
                 s.push(expr::Offset{v});
diff --git a/src/debugger/Source/ExpressionInterpreter.h b/src/debugger/Source/ExpressionInterpreter.h
index ac2c139..c7bd3cb 100644
--- a/src/debugger/Source/ExpressionInterpreter.h
+++ b/src/debugger/Source/ExpressionInterpreter.h
@@ -35,6 +35,9 @@ private:
                 exprs(exprs), native(native),
                 frame_base_reg_name(std::move(frame_base_reg_name)) { }
 
+    /// Pops the value from the top of the stack, throws if there is none.
+    expr::Location Pop();
+
     expr::Location AddOperands(const expr::Location& o1,
                               const expr::Location& o2) const;
 
-- 
2.43.0


From c26679b4fb50f2a2451eebbb25ea01b77a7d85bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:04 +0000
Subject: [PATCH 25/62] fix: expressions follow the precedence of C, text after
 an expression is an error

---
 src/debugger/Source/ExpressionParser.cpp | 128 ++++++-----------------
 src/debugger/Source/ExpressionParser.h   |  31 +++---
 src/debugger/Source/Source.cpp           |   2 +-
 3 files changed, 49 insertions(+), 112 deletions(-)

diff --git a/src/debugger/Source/ExpressionParser.cpp b/src/debugger/Source/ExpressionParser.cpp
index 7407878..1fea129 100644
--- a/src/debugger/Source/ExpressionParser.cpp
+++ b/src/debugger/Source/ExpressionParser.cpp
@@ -1,3 +1,5 @@
+#include <set>
+#include <vector>
 #include "ExpressionParser.h"
 
 static const std::map<TokenKind, BinaryOperator::Op> operators = {
@@ -28,116 +30,54 @@ static const std::map<TokenKind, UnaryOperator::Op> unary_operators = {
     {TokenKind::TIMES, UnaryOperator::Op::Deref},
 };
 
-std::unique_ptr<Expression> ExpressionParser::expr() {
-    return assign(); 
-}
-
-std::unique_ptr<Expression> ExpressionParser::assign() {
-    std::unique_ptr<Expression> result = equality();
-    while (curtok.kind == TokenKind::ASSIGN) {
-        auto kind = curtok.kind;
-        GetNext();
-        auto next = equality();
-        result = std::make_unique<BinaryOperator>(std::move(result),
-                                                  operators.at(kind),
-                                                  std::move(next));
-    }
-    return result;
-}
-
-std::unique_ptr<Expression> ExpressionParser::equality() {
-    std::unique_ptr<Expression> result = logical();
-    while (curtok.kind == TokenKind::EQ
-            || curtok.kind == TokenKind::NEQ) {
-        auto kind = curtok.kind;
-        GetNext();
-        auto next = logical();
-        result = std::make_unique<BinaryOperator>(std::move(result),
-                                                  operators.at(kind),
-                                                  std::move(next));
-    }
-    return result;
-}
-
-std::unique_ptr<Expression> ExpressionParser::logical() {
-    std::unique_ptr<Expression> result = comparison();
-    while (curtok.kind == TokenKind::LAND
-            || curtok.kind == TokenKind::LOR) {
-        auto kind = curtok.kind;
-        GetNext();
-        auto next = comparison();
-        result = std::make_unique<BinaryOperator>(std::move(result),
-                                                  operators.at(kind),
-                                                  std::move(next));
-    }
-    return result;
-}
+/// Binary operators (except for the assignment) grouped by their precedence,
+/// beginning with those that bind the least.
+static const std::vector<std::set<TokenKind>> precedences = {
+    {TokenKind::LOR},
+    {TokenKind::LAND},
+    {TokenKind::OR},
+    {TokenKind::XOR},
+    {TokenKind::AND},
+    {TokenKind::EQ, TokenKind::NEQ},
+    {TokenKind::LESS, TokenKind::LEQ, TokenKind::GREATER, TokenKind::GEQ},
+    {TokenKind::LSHIFT, TokenKind::RSHIFT},
+    {TokenKind::PLUS, TokenKind::MINUS},
+    {TokenKind::TIMES, TokenKind::SLASH, TokenKind::MOD},
+};
 
-std::unique_ptr<Expression> ExpressionParser::comparison() {
-    std::unique_ptr<Expression> result = shifts();
-    while (curtok.kind == TokenKind::LESS
-            || curtok.kind == TokenKind::GREATER) {
-        auto kind = curtok.kind;
-        GetNext();
-        auto next = shifts();
-        result = std::make_unique<BinaryOperator>(std::move(result),
-                                                  operators.at(kind),
-                                                  std::move(next));
+std::unique_ptr<Expression> ExpressionParser::ParseExpression() {
+    auto e = expr();
+    if (curtok.kind != TokenKind::END) {
+        throw CreateError("Unexpected token after the expression");
     }
-    return result;
+    return e;
 }
 
-std::unique_ptr<Expression> ExpressionParser::shifts() {
-    std::unique_ptr<Expression> result = bit_ops();
-    while (curtok.kind == TokenKind::LSHIFT
-            || curtok.kind == TokenKind::RSHIFT) {
-        auto kind = curtok.kind;
-        GetNext();
-        auto next = bit_ops();
-        result = std::make_unique<BinaryOperator>(std::move(result),
-                                                  operators.at(kind),
-                                                  std::move(next));
-    }
-    return result;
+std::unique_ptr<Expression> ExpressionParser::expr() {
+    return assign(); 
 }
 
-std::unique_ptr<Expression> ExpressionParser::bit_ops() {
-    std::unique_ptr<Expression> result = term();
-    while (curtok.kind == TokenKind::AND
-            || curtok.kind == TokenKind::XOR
-            || curtok.kind == TokenKind::OR) {
-        auto kind = curtok.kind;
+std::unique_ptr<Expression> ExpressionParser::assign() {
+    std::unique_ptr<Expression> result = binary(0);
+    if (curtok.kind == TokenKind::ASSIGN) {
         GetNext();
-        auto next = term();
+        auto next = assign();
         result = std::make_unique<BinaryOperator>(std::move(result),
-                                                  operators.at(kind),
+                                                  BinaryOperator::Op::Assign,
                                                   std::move(next));
     }
     return result;
 }
 
-std::unique_ptr<Expression> ExpressionParser::term() {
-    std::unique_ptr<Expression> result = factor();
-    while (curtok.kind == TokenKind::PLUS
-            || curtok.kind == TokenKind::MINUS) {
-        auto kind = curtok.kind;
-        GetNext();
-        auto next = factor();
-        result = std::make_unique<BinaryOperator>(std::move(result),
-                                                  operators.at(kind),
-                                                  std::move(next));
+std::unique_ptr<Expression> ExpressionParser::binary(size_t precedence) {
+    if (precedence == precedences.size()) {
+        return unary();
     }
-    return result;
-}
-
-std::unique_ptr<Expression> ExpressionParser::factor() {
-    std::unique_ptr<Expression> result = unary();
-    while (curtok.kind == TokenKind::TIMES
-            || curtok.kind == TokenKind::MOD
-            || curtok.kind == TokenKind::SLASH) {
+    std::unique_ptr<Expression> result = binary(precedence + 1);
+    while (precedences[precedence].contains(curtok.kind)) {
         auto kind = curtok.kind;
         GetNext();
-        auto next = unary();
+        auto next = binary(precedence + 1);
         result = std::make_unique<BinaryOperator>(std::move(result),
                                                   operators.at(kind),
                                                   std::move(next));
diff --git a/src/debugger/Source/ExpressionParser.h b/src/debugger/Source/ExpressionParser.h
index 8a7e9b1..50d7dd6 100644
--- a/src/debugger/Source/ExpressionParser.h
+++ b/src/debugger/Source/ExpressionParser.h
@@ -12,23 +12,25 @@
 ///                  
 /// Context-free syntax:
 ///  expr = assign
-///  assign = equality {"=" equality}
-///  equality = logical {("==" | "!=") logical}
-///  logical = comparison {("&&" | "||") comparison}
-///  comparison = term {("<" | "<=" | ">=" | ">") term}
-///  shifts = bit_ops {("<<" | ">>") bit_ops}
-///  bit_ops = term {("|" | "&" | "^") term}
+///  assign = lor ["=" assign]
+///  lor = land {"||" land}
+///  land = bit_or {"&&" bit_or}
+///  bit_or = bit_xor {"|" bit_xor}
+///  bit_xor = bit_and {"^" bit_and}
+///  bit_and = equality {"&" equality}
+///  equality = comparison {("==" | "!=") comparison}
+///  comparison = shifts {("<" | "<=" | ">=" | ">") shifts}
+///  shifts = term {("<<" | ">>") term}
 ///  term = factor {("+" | "-") factor}
 ///  factor = unary {("*" | "/" | "%") unary}
-///  unary = ["*" | "-" | "!"] postfix
+///  unary = ("*" | "-" | "!") unary | postfix
 ///  postfix = primary ([ "[" expr "]" ] | "->" ID | "." ID)
 ///  primary = Number | ID | "(" expr ")"
 class ExpressionParser {
 public:
     ExpressionParser(std::istream& is): lex(is) { GetNext(); }
-    std::unique_ptr<Expression> ParseExpression() {
-        return expr();
-    }
+    /// Parses the whole input, which must be exactly one expression.
+    std::unique_ptr<Expression> ParseExpression();
 private:
     template<typename ...Args>
     ParserError CreateError(fmt::format_string<Args...> format, Args&& ...args) const {
@@ -39,13 +41,8 @@ private:
 
     std::unique_ptr<Expression> expr();
     std::unique_ptr<Expression> assign();
-    std::unique_ptr<Expression> equality();
-    std::unique_ptr<Expression> logical();
-    std::unique_ptr<Expression> comparison();
-    std::unique_ptr<Expression> bit_ops();
-    std::unique_ptr<Expression> shifts();
-    std::unique_ptr<Expression> term();
-    std::unique_ptr<Expression> factor();
+    /// Parses binary operators of at least given precedence
+    std::unique_ptr<Expression> binary(size_t precedence);
     std::unique_ptr<Expression> unary();
     std::unique_ptr<Expression> postfix();
     std::unique_ptr<Expression> primary();
diff --git a/src/debugger/Source/Source.cpp b/src/debugger/Source/Source.cpp
index f57a198..7d3ef13 100644
--- a/src/debugger/Source/Source.cpp
+++ b/src/debugger/Source/Source.cpp
@@ -342,9 +342,9 @@ std::map<std::string, const DIE*> Source::GetActiveVariables(uint64_t address) c
 std::pair<TypedValue, size_t>
 Source::EvaluateExpression(Native& native, std::string expression, bool cache) {
     std::istringstream iss(std::move(expression));
-    ExpressionParser parser(iss);
     std::unique_ptr<Expression> e; 
     try {
+        ExpressionParser parser(iss);
         e = parser.ParseExpression();
     } catch (const ParserError& err) {
         throw DebuggerError(fmt::format("Unable to parse expression: {}", err.what()));
-- 
2.43.0


From 3881a5177d6e8cf6829f824fc28140a6b6b42884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:47 +0000
Subject: [PATCH 26/62] fix: assigning a float stored its integral part

---
 src/debugger/Source/Expression.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/debugger/Source/Expression.cpp b/src/debugger/Source/Expression.cpp
index 8b329f2..048942f 100644
--- a/src/debugger/Source/Expression.cpp
+++ b/src/debugger/Source/Expression.cpp
@@ -322,7 +322,8 @@ TypedValue ExpressionEvaluator::Assignment(TypedValue&& left, TypedValue&& right
             return std::move(left);
         },
         [&](FloatValue&& left, FloatValue&& right) -> TypedValue {
-            SetRaw(native, left.loc.value(), right.value);
+            SetRaw(native, left.loc.value(),
+                   utils::reinterpret_safe<uint64_t>(right.value));
             left.value = right.value;
             return std::move(left);
         },
-- 
2.43.0


From 0fb86478d21df5ca6fb1119a27748a660ff33303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:47 +0000
Subject: [PATCH 27/62] fix: pointer difference counts elements

---
 src/debugger/Source/Expression.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/debugger/Source/Expression.cpp b/src/debugger/Source/Expression.cpp
index 048942f..72a44a6 100644
--- a/src/debugger/Source/Expression.cpp
+++ b/src/debugger/Source/Expression.cpp
@@ -161,11 +161,15 @@ TypedValue ExpressionEvaluator::SubValues(TypedValue&& left, TypedValue&& right)
             auto item_size = source.GetTypeSize(left.type.type_id);
             return PointerValue{left.type, left.value - right.value * item_size};
         },
-        [](PointerValue&& left, PointerValue&& right) -> TypedValue {
+        [this](PointerValue&& left, PointerValue&& right) -> TypedValue {
             if (left.type.type_id != right.type.type_id) {
                 throw DebuggerError("Only pointers to the same type can be substracted");
             }
-            return IntegerValue{static_cast<int64_t>(left.value - right.value)};
+            auto item_size = static_cast<int64_t>(source.GetTypeSize(left.type.type_id));
+            if (item_size <= 0) {
+                throw DebuggerError("Can't substract pointers to a type without a size");
+            }
+            return IntegerValue{static_cast<int64_t>(left.value - right.value) / item_size};
         },
         [](auto&&, auto&&) -> TypedValue {
             throw DebuggerError("Unsupported types for operator '-'");
-- 
2.43.0


From d16482b29c8e02a4f3fb5c5b2bfa9c63dae2f74a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:47 +0000
Subject: [PATCH 28/62] fix: negative array index and assignment of arrays of
 different sizes

---
 src/debugger/Source/Expression.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/debugger/Source/Expression.cpp b/src/debugger/Source/Expression.cpp
index 72a44a6..fda20e6 100644
--- a/src/debugger/Source/Expression.cpp
+++ b/src/debugger/Source/Expression.cpp
@@ -245,6 +245,9 @@ void ExpressionEvaluator::Visit(const ArrayAccess& id) {
         if (idx == nullptr) {
             throw DebuggerError("Can only indexate with integers");
         }
+        if (idx->value < 0) {
+            throw DebuggerError(fmt::format("Out of bounds access: {} < 0", idx->value));
+        }
         if (idx->value >= static_cast<int64_t>(av->members.size())) {
             throw DebuggerError(fmt::format("Out of bounds access: {} >= {}", idx->value, av->members.size()));
         }
@@ -348,7 +351,9 @@ TypedValue ExpressionEvaluator::Assignment(TypedValue&& left, TypedValue&& right
             if (left.type.type_id != right.type.type_id) {
                 throw DebuggerError("Incopatible pointer types");
             }
-            assert(left.members.size() == right.members.size());
+            if (left.members.size() != right.members.size()) {
+                throw DebuggerError("Incompatible array sizes for assignment");
+            }
             for (size_t i = 0; i < left.members.size(); ++ i) {
                 left.members.at(i) = Assignment(std::move(left.members.at(i)),
                                                 std::move(right.members.at(i)));
-- 
2.43.0


From 7071de5d96107155420e65f4dd68c12061ea7a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:47 +0000
Subject: [PATCH 29/62] fix: overflow, division and shifts without a result in
 expressions

---
 src/debugger/Source/Expression.cpp | 71 +++++++++++++++++++++++++-----
 1 file changed, 59 insertions(+), 12 deletions(-)

diff --git a/src/debugger/Source/Expression.cpp b/src/debugger/Source/Expression.cpp
index fda20e6..3e06dcf 100644
--- a/src/debugger/Source/Expression.cpp
+++ b/src/debugger/Source/Expression.cpp
@@ -1,5 +1,6 @@
 #include <variant>
 #include <functional>
+#include <limits>
 #include "Expression.h"
 #include "Source.h"
 #include "debugger/Source/ExpressionInterpreter.h"
@@ -124,10 +125,32 @@ TypedValue ExpressionEvaluator::Dereference(TypedValue&& val) {
     return EvaluateTypeAndLocation(loc, *points_to_type);
 }
 
+/// The integers of the debuggee wrap around.
+int64_t WrappingAdd(int64_t left, int64_t right) {
+    return static_cast<int64_t>(static_cast<uint64_t>(left)
+            + static_cast<uint64_t>(right));
+}
+
+struct Negate {
+    int64_t operator()(int64_t v) const {
+        return static_cast<int64_t>(0 - static_cast<uint64_t>(v));
+    }
+    double operator()(double v) const { return -v; }
+};
+
+struct Multiply {
+    int64_t operator()(int64_t left, int64_t right) const {
+        return static_cast<int64_t>(static_cast<uint64_t>(left)
+                * static_cast<uint64_t>(right));
+    }
+    int64_t operator()(char left, char right) const { return left * right; }
+    double operator()(double left, double right) const { return left * right; }
+};
+
 TypedValue ExpressionEvaluator::AddValues(TypedValue&& left, TypedValue&& right) {
     return std::visit(utils::overloaded{
         [](IntegerValue&& left, IntegerValue&& right) -> TypedValue {
-            return IntegerValue{left.value + right.value}; 
+            return IntegerValue{WrappingAdd(left.value, right.value)}; 
         },
         [](FloatValue&& left, FloatValue&& right) -> TypedValue {
             return FloatValue{left.value + right.value};
@@ -152,7 +175,7 @@ TypedValue ExpressionEvaluator::AddValues(TypedValue&& left, TypedValue&& right)
 TypedValue ExpressionEvaluator::SubValues(TypedValue&& left, TypedValue&& right) {
     return std::visit(utils::overloaded{
         [](IntegerValue&& left, IntegerValue&& right) -> TypedValue {
-            return IntegerValue{left.value - right.value}; 
+            return IntegerValue{WrappingAdd(left.value, Negate{}(right.value))}; 
         },
         [](FloatValue&& left, FloatValue&& right) -> TypedValue {
             return FloatValue{left.value - right.value};
@@ -300,7 +323,7 @@ void ExpressionEvaluator::Visit(const UnaryOperator& op) {
     break; case UnaryOperator::Op::LNot:
         visitor_value = EvaluateUnary(target, std::logical_not{});
     break; case UnaryOperator::Op::Negate:
-        visitor_value = EvaluateUnary(target, std::negate{});
+        visitor_value = EvaluateUnary(target, Negate{});
     }
 }
 
@@ -383,6 +406,32 @@ TypedValue ExpressionEvaluator::Assignment(TypedValue&& left, TypedValue&& right
     }, std::move(left), std::move(right));
 }
 
+/// Checks that the division of the integers has a result.
+void CheckDivision(const TypedValue& left, const TypedValue& right) {
+    if (!CheckZero(right)) {
+        throw DebuggerError("Can't divide by zero");
+    }
+    auto l = std::get_if<IntegerValue>(&left);
+    auto r = std::get_if<IntegerValue>(&right);
+    if (l && r && r->value == -1
+            && l->value == std::numeric_limits<int64_t>::min()) {
+        throw DebuggerError("The result of the division can't be represented");
+    }
+}
+
+void CheckShift(const TypedValue& right) {
+    auto check = [](int64_t amount) {
+        if (amount < 0 || amount >= 64) {
+            throw DebuggerError(fmt::format("Can't shift by {}", amount));
+        }
+    };
+    if (auto i = std::get_if<IntegerValue>(&right)) {
+        check(i->value);
+    } else if (auto c = std::get_if<CharValue>(&right)) {
+        check(c->value);
+    }
+}
+
 void ExpressionEvaluator::Visit(const BinaryOperator& plus) {
     plus.left->Accept(*this);
     auto left = std::move(visitor_value);
@@ -395,19 +444,15 @@ void ExpressionEvaluator::Visit(const BinaryOperator& plus) {
         visitor_value = SubValues(std::move(left), std::move(right));
     break; case BinaryOperator::Op::Mul: 
         visitor_value = ArithmeticOp(std::move(left),
-                                     std::multiplies{},
+                                     Multiply{},
                                      std::move(right));
     break; case BinaryOperator::Op::Div: 
-        if (!CheckZero(right)) {
-            throw DebuggerError("Can't divide by zero");
-        }
+        CheckDivision(left, right);
         visitor_value = ArithmeticOp(std::move(left),
                                      std::divides{},
                                      std::move(right));
     break; case BinaryOperator::Op::Mod: 
-        if (!CheckZero(right)) {
-            throw DebuggerError("Can't divide by zero");
-        }
+        CheckDivision(left, right);
         visitor_value = BitValues(std::move(left),
                                   std::modulus{},
                                   std::move(right));
@@ -456,12 +501,14 @@ void ExpressionEvaluator::Visit(const BinaryOperator& plus) {
                                   std::bit_xor{},
                                   std::move(right));
     break; case BinaryOperator::Op::LShift: 
+        CheckShift(right);
         visitor_value = BitValues(std::move(left),
-                                  [](auto&& l, auto&& r) { return l << r; },
+                                  [](int64_t l, int64_t r) { return l << r; },
                                   std::move(right));
     break; case BinaryOperator::Op::RShift: 
+        CheckShift(right);
         visitor_value = BitValues(std::move(left),
-                                  [](auto&& l, auto&& r) { return l >> r; },
+                                  [](int64_t l, int64_t r) { return l >> r; },
                                   std::move(right));
     break; case BinaryOperator::Op::Assign: 
         visitor_value = Assignment(std::move(left), std::move(right));
-- 
2.43.0


From dc5ce071707191e9cc05a490ff4985e4b4d1d53e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:47 +0000
Subject: [PATCH 30/62] fix: unary operators on chars and floats

---
 src/debugger/Source/Expression.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/debugger/Source/Expression.cpp b/src/debugger/Source/Expression.cpp
index 3e06dcf..fb7fb5e 100644
--- a/src/debugger/Source/Expression.cpp
+++ b/src/debugger/Source/Expression.cpp
@@ -1,6 +1,7 @@
 #include <variant>
 #include <functional>
 #include <limits>
+#include <type_traits>
 #include "Expression.h"
 #include "Source.h"
 #include "debugger/Source/ExpressionInterpreter.h"
@@ -304,7 +305,16 @@ TypedValue EvaluateUnary(const TypedValue& val, UnaryOp&& op) {
             return IntegerValue{op(v.value)};
         },
         [&](const CharValue& v) -> TypedValue {
-            return CharValue{static_cast<char>(op(v.value))};
+            return IntegerValue{op(static_cast<int64_t>(v.value))};
+        },
+        [&](const FloatValue& v) -> TypedValue {
+            if constexpr (!std::is_invocable_v<UnaryOp, double>) {
+                throw DebuggerError("Unsupported type for unary operation");
+            } else if constexpr (std::is_same_v<decltype(op(v.value)), bool>) {
+                return IntegerValue{op(v.value)};
+            } else {
+                return FloatValue{op(v.value)};
+            }
         },
         [](const auto&) -> TypedValue {
             throw DebuggerError("Unsupported type for unary operation");
-- 
2.43.0


From ea4d6448660670f5fa3c6ae5d3a940c2f79a80d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:47 +0000
Subject: [PATCH 31/62] fix: logical operators evaluate the right side only if
 it decides

---
 src/debugger/Source/Expression.cpp | 33 ++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/src/debugger/Source/Expression.cpp b/src/debugger/Source/Expression.cpp
index fb7fb5e..765f964 100644
--- a/src/debugger/Source/Expression.cpp
+++ b/src/debugger/Source/Expression.cpp
@@ -442,9 +442,34 @@ void CheckShift(const TypedValue& right) {
     }
 }
 
+/// Returns whether the value is considered to be true in a condition.
+bool IsTrue(const TypedValue& val) {
+    return std::visit(utils::overloaded{
+        [](const StructuredValue&) -> bool {
+            throw DebuggerError("Unsupported types for logical operator");
+        },
+        [](const ArrayValue&) -> bool {
+            throw DebuggerError("Unsupported types for logical operator");
+        },
+        [](const auto& v) -> bool {
+            return v.value != 0;
+        },
+    }, val);
+}
+
 void ExpressionEvaluator::Visit(const BinaryOperator& plus) {
     plus.left->Accept(*this);
     auto left = std::move(visitor_value);
+    if (plus.op == BinaryOperator::Op::And || plus.op == BinaryOperator::Op::Or) {
+        // The right side is evaluated only if it decides.
+        bool result = IsTrue(left);
+        if (result == (plus.op == BinaryOperator::Op::And)) {
+            plus.right->Accept(*this);
+            result = IsTrue(visitor_value);
+        }
+        visitor_value = IntegerValue{result};
+        return;
+    }
     plus.right->Accept(*this);
     auto right = std::move(visitor_value);
     switch (plus.op) {
@@ -490,14 +515,6 @@ void ExpressionEvaluator::Visit(const BinaryOperator& plus) {
         visitor_value = CompareValues(std::move(left),
                                       std::greater_equal{},
                                       std::move(right));
-    break; case BinaryOperator::Op::And: 
-        visitor_value = CompareValues(std::move(left),
-                                     std::logical_and{},
-                                     std::move(right));
-    break; case BinaryOperator::Op::Or: 
-        visitor_value = CompareValues(std::move(left),
-                                     std::logical_or{},
-                                     std::move(right));
     break; case BinaryOperator::Op::IAnd: 
         visitor_value = BitValues(std::move(left),
                                   std::bit_and{},
-- 
2.43.0


From a840b0e5e9e6ee9f5ec972dd0eced6ec6810d7c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:47 +0000
Subject: [PATCH 32/62] fix: variable of an unsigned type is reported as an
 error

---
 src/debugger/Source/Expression.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/debugger/Source/Expression.cpp b/src/debugger/Source/Expression.cpp
index 765f964..81f6c09 100644
--- a/src/debugger/Source/Expression.cpp
+++ b/src/debugger/Source/Expression.cpp
@@ -47,7 +47,7 @@ TypedValue ExpressionEvaluator::EvaluateTypeAndLocation(const expr::Location& lo
             } else if (t.type == PrimitiveType::Type::CHAR) {
                 return CharValue{utils::reinterpret_safe<char>(raw_value), loc};
             } else {
-                NOT_IMPLEMENTED;
+                throw DebuggerError("Unsigned types are not supported");
             }
         },
         [&](const PointerType& t) -> TypedValue {
-- 
2.43.0


From 001ae39eee19c12d33a9b8045731107e5bad4292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:47 +0000
Subject: [PATCH 33/62] fix: variable declared after a nested scope hid the
 variable of that scope

---
 src/debugger/Source/Source.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/debugger/Source/Source.cpp b/src/debugger/Source/Source.cpp
index 7d3ef13..9b0fd93 100644
--- a/src/debugger/Source/Source.cpp
+++ b/src/debugger/Source/Source.cpp
@@ -326,8 +326,17 @@ void FindVariables(uint64_t address, const DIE& die, std::map<std::string, const
             return;
         }
     }
+    // Variables of this scope come first, so that the ones in nested scopes
+    // hide them wherever they are declared.
     for (const auto& d: die) {
-        FindVariables(address, d, result);
+        if (d.get_tag() == DIE::TAG::variable) {
+            FindVariables(address, d, result);
+        }
+    }
+    for (const auto& d: die) {
+        if (d.get_tag() != DIE::TAG::variable) {
+            FindVariables(address, d, result);
+        }
     }
 }
 
-- 
2.43.0


From d72ff0ff60156d58ca91c4a95bab5289d1be84df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:47 +0000
Subject: [PATCH 34/62] fix: incomplete and self-containing types in debugging
 information crashed the debugger

---
 src/debugger/Source/Source.cpp | 39 ++++++++++++++++++++++++++++++++++
 src/debugger/Source/Source.h   |  4 ++++
 2 files changed, 43 insertions(+)

diff --git a/src/debugger/Source/Source.cpp b/src/debugger/Source/Source.cpp
index 9b0fd93..e1f0e13 100644
--- a/src/debugger/Source/Source.cpp
+++ b/src/debugger/Source/Source.cpp
@@ -222,6 +222,10 @@ void Source::ReconstructTypeInformation() {
             auto name = FindDieAttribute<ATTR_name>(die);
             auto size = FindDieAttribute<ATTR_size>(die);
             auto members = FindDieAttribute<ATTR_members>(die);
+            if (!name || !size || !members) {
+                log_error("DIE structured type, missing name, size or members");
+                continue;
+            }
             std::vector<StructuredMember> members_vec;
             std::transform(members->m.begin(), members->m.end(),
                     std::back_inserter(members_vec),
@@ -263,6 +267,41 @@ void Source::ReconstructTypeInformation() {
         }
         // Else not a type die.
     }
+    std::erase_if(types, [this](auto&& type) {
+        std::set<size_t> opened;
+        if (!IsWellFounded(type.first, opened)) {
+            log_error("Type of id {} contains itself!", type.first);
+            return true;
+        }
+        return false;
+    });
+}
+
+bool Source::IsWellFounded(size_t id, std::set<size_t>& opened) const {
+    auto type = GetType(id);
+    if (type == nullptr) {
+        // Unknown types are dealt with when they are needed.
+        return true;
+    }
+    if (!opened.insert(id).second) {
+        return false;
+    }
+    bool result = std::visit(utils::overloaded {
+        [](const PrimitiveType&) { return true; },
+        [&](const PointerType& t) {
+            auto pointee = GetType(t.type_id);
+            // Pointers to structures are the proper way of making recursive types.
+            return (pointee && std::holds_alternative<StructuredType>(*pointee))
+                || IsWellFounded(t.type_id, opened);
+        },
+        [&](const ArrayType& t) { return IsWellFounded(t.type_id, opened); },
+        [&](const StructuredType& t) {
+            return std::all_of(t.members.begin(), t.members.end(),
+                    [&](auto&& m) { return IsWellFounded(m.type_id, opened); });
+        },
+    }, *type);
+    opened.erase(id);
+    return result;
 }
 
 std::optional<Type> Source::GetVariableTypeInformation(Native& native, std::string_view name) const {
diff --git a/src/debugger/Source/Source.h b/src/debugger/Source/Source.h
index 091f5af..dc19eca 100644
--- a/src/debugger/Source/Source.h
+++ b/src/debugger/Source/Source.h
@@ -154,6 +154,10 @@ private:
     /// Builds type debugging information and stores it as class state.
     void ReconstructTypeInformation();
 
+    /// Returns false for types that contain themselves, or that are
+    /// pointers which never lead to anything but a pointer.
+    bool IsWellFounded(size_t id, std::set<size_t>& opened) const;
+
     std::map<std::string, const DIE*> GetActiveVariables(uint64_t address) const;
 
     template<typename T>
-- 
2.43.0


From d7dee5337b3ff03f20c2056c0ecefacb264c3b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:47 +0000
Subject: [PATCH 35/62] fix: malformed debugging information entries and
 locations are rejected

---
 src/debugger/Source/Parser.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/debugger/Source/Parser.cpp b/src/debugger/Source/Parser.cpp
index f65690e..706797e 100644
--- a/src/debugger/Source/Parser.cpp
+++ b/src/debugger/Source/Parser.cpp
@@ -145,6 +145,9 @@ std::vector<expr::LocExpr> Parser::ParseExprLoc() {
             auto loc = ParseOneExprLoc();
             result.push_back(std::move(loc));
         }
+        if (curtok.kind != TokenKind::BACKTICK) {
+            throw CreateError("Expected closing '`'");
+        }
         GetNext(); // Eat the '`'
     } else if (curtok.kind == TokenKind::LBRACKET) {
         GetNext();
@@ -242,6 +245,9 @@ DIE Parser::ParseDIE(std::string name) {
     std::vector<DIE_ATTR> attributes;
     std::vector<DIE> childs;
     while (curtok.kind != TokenKind::RBRACE) {
+        if (curtok.kind != TokenKind::ID) {
+            throw CreateError("Expected name of an attribute or DIE");
+        }
         auto id = lex.getId();
         GetNext();
         if (id.starts_with("ATTR")) {
@@ -250,6 +256,8 @@ DIE Parser::ParseDIE(std::string name) {
         } else if (id.starts_with("DIE")) {
             auto die = ParseDIE(std::move(id));
             childs.push_back(std::move(die));
+        } else {
+            throw CreateError("Expected attribute or DIE, got '{}'", id);
         }
         if (curtok.kind == TokenKind::COMMA) {
             GetNext();
-- 
2.43.0


From 15d5ed6b02b97abae647485ee9c545a7a523d50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:33 +0000
Subject: [PATCH 36/62] fix: character arrays are displayed within their bounds

---
 src/debugger/Source/Source.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/debugger/Source/Source.cpp b/src/debugger/Source/Source.cpp
index e1f0e13..9826987 100644
--- a/src/debugger/Source/Source.cpp
+++ b/src/debugger/Source/Source.cpp
@@ -462,9 +462,10 @@ std::string Source::TypeToString(const Type& type) const {
     }, type);
 }
 
-std::string ReadMemoryAsString(Native& native, uint64_t addr) {
+std::string ReadMemoryAsString(Native& native, uint64_t addr,
+                               std::optional<size_t> max_size = {}) {
     std::string result;
-    while (true) {
+    for (size_t i = 0; !max_size || i < *max_size; ++i) {
         char c = native.ReadMemory(addr++, 1).at(0);
         // TODO: Handle all unprintable or whitespace characters.
         if (c == '\0') {
@@ -497,7 +498,7 @@ std::string Source::TypedValueToString(Native& native, const TypedValue& v) {
         [&](const ArrayValue& v) {
             if (!v.members.empty()
                     && std::holds_alternative<CharValue>(v.members.back())) {
-                auto s = ReadMemoryAsString(native, v.begin_address);
+                auto s = ReadMemoryAsString(native, v.begin_address, v.members.size());
                 return fmt::format("{} \"{}\"", v.begin_address, s);
             } else {
                 std::vector<std::string> res;
-- 
2.43.0


From 17f1e82a26b67c145907eeff34d8f0b32dc81f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:18 +0000
Subject: [PATCH 37/62] fix: skipped sections may begin with any character

---
 src/t86-parser/parser.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/t86-parser/parser.cpp b/src/t86-parser/parser.cpp
index e354af7..8210021 100644
--- a/src/t86-parser/parser.cpp
+++ b/src/t86-parser/parser.cpp
@@ -11,16 +11,19 @@ void Parser::Section() {
         throw CreateError("Expected '.section_name'");
     }
     std::string section_name = lex.getId();
-    GetNext();
 
     log_info("Parsing '{}' section", section_name);
     if (section_name == "text") {
+        GetNext();
         Text();
     } else if (section_name == "data") {
+        GetNext();
         Data();
     } else {
         log_info("Skipping '{}' section", section_name);
+        // Must be set before the first token of the section is fetched.
         lex.SetIgnoreMode(true);
+        GetNext();
         while (curtok.kind != TokenKind::DOT && curtok.kind != TokenKind::END) {
             GetNext();
         };
-- 
2.43.0


From ecd7bc0794d85c09739215ce4be0fd0c4eabf870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:18 +0000
Subject: [PATCH 38/62] fix: debug section parser skips other sections from
 their first character and reports lexical errors

---
 src/debugger/Source/Parser.cpp | 5 ++++-
 src/debugger/Source/Parser.h   | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/debugger/Source/Parser.cpp b/src/debugger/Source/Parser.cpp
index 706797e..b749381 100644
--- a/src/debugger/Source/Parser.cpp
+++ b/src/debugger/Source/Parser.cpp
@@ -306,14 +306,17 @@ DebuggingInfo Parser::Parse() {
             // debug_source must be last section
             return info;
         }
-        GetNext();
 
         if (section_name == "debug_line") {
+            GetNext();
             info.line_mapping = DebugLine();
         } else if (section_name == "debug_info") {
+            GetNext();
             info.top_die = DebugInfo();
         } else {
+            // Must be set before the first token of the section is fetched.
             lex.SetIgnoreMode(true);
+            GetNext();
             log_info("Skipping section '{}'", section_name);
             while (curtok.kind != TokenKind::DOT && curtok.kind != TokenKind::END) {
                 GetNext();
diff --git a/src/debugger/Source/Parser.h b/src/debugger/Source/Parser.h
index 57412ac..66ad987 100644
--- a/src/debugger/Source/Parser.h
+++ b/src/debugger/Source/Parser.h
@@ -16,7 +16,7 @@ struct DebuggingInfo {
 /// Parser debugging information, like DIEs, line to addr mapping and so on.
 class Parser {
 public:
-    Parser(std::istream& iss) noexcept : lex(iss) { GetNext(); }
+    Parser(std::istream& iss) : lex(iss) { GetNext(); }
 
     template<typename ...Args>
     ParserError CreateError(fmt::format_string<Args...> format, Args&& ...args) const {
-- 
2.43.0


From 03f522c3d6d209e398d3d1dc57532eb1fb856ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:04 +0000
Subject: [PATCH 39/62] fix: writing text which begins with an unknown
 character is reported as an error

---
 src/debugger/T86Process.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/debugger/T86Process.cpp b/src/debugger/T86Process.cpp
index 9245115..acbd458 100644
--- a/src/debugger/T86Process.cpp
+++ b/src/debugger/T86Process.cpp
@@ -9,8 +9,8 @@ void T86Process::WriteText(uint64_t address,
                            const std::vector<std::string> &data) {
     for (size_t i = 0; i < data.size(); ++i) {
         std::istringstream iss(data[i]);
-        Parser p(iss);
         try {
+            Parser p(iss);
             p.Instruction();
             p.CheckEnd();
         } catch (const ParserError& err) {
-- 
2.43.0


From ad605d7586ef8c059dbf6f55de75e7f992b756d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:31 +0000
Subject: [PATCH 40/62] fix: a malformed address of memory set and assemble is
 reported instead of being dereferenced

---
 src/dbg-cli/CLI.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/dbg-cli/CLI.h b/src/dbg-cli/CLI.h
index 9c2ced0..813d88c 100644
--- a/src/dbg-cli/CLI.h
+++ b/src/dbg-cli/CLI.h
@@ -798,7 +798,7 @@ Most often, the correct address will be one below it.)";
         if (check_command(subcommands, "interactive", 2)) {
             auto addr = utils::svtonum<size_t>(subcommands.at(1));
             if (!addr) {
-                Error("Expected address, got '{}'", subcommands.at(2));
+                Error("Expected address, got '{}'", subcommands.at(1));
             }
             InteractiveAssemble(*addr);
         } else {
@@ -850,6 +850,9 @@ Most often, the correct address will be one below it.)";
         auto subcommands = utils::split_v(command);
         if (check_command(subcommands, "set", 3)) {
             auto cell = utils::svtonum<size_t>(subcommands.at(1));
+            if (!cell) {
+                Error("Expected memory cell, got '{}'", subcommands.at(1));
+            }
             std::vector<int64_t> values;
             std::transform(std::next(subcommands.begin(), 2), subcommands.end(), 
                     std::back_inserter(values), [&](auto&& s) { 
-- 
2.43.0


From 23ba8542ed6c6407ae4fcf62e5834280614db6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:31 +0000
Subject: [PATCH 41/62] fix: breakpoint on a function without line information
 doesn't crash the debugger

---
 src/dbg-cli/CLI.h | 56 ++++++++++++++++++-----------------------------
 1 file changed, 21 insertions(+), 35 deletions(-)

diff --git a/src/dbg-cli/CLI.h b/src/dbg-cli/CLI.h
index 813d88c..7ab13c5 100644
--- a/src/dbg-cli/CLI.h
+++ b/src/dbg-cli/CLI.h
@@ -453,6 +453,23 @@ Most often, the correct address will be one below it.)";
         }
     }
 
+    /// Prints what was done with the breakpoint at given address. The address
+    /// of a function doesn't have to be mapped to any source line.
+    void PrintBreakpointLocation(std::string_view action, uint64_t addr) {
+        auto line = source.AddrToLine(addr);
+        if (!line) {
+            fmt::print("Breakpoint {} address {}\n", action, addr);
+            return;
+        }
+        auto source_line = source.GetLine(*line);
+        fmt::print("Breakpoint {} line {} (addr {})", action, *line + 1, addr);
+        if (source_line) {
+            fmt::print(": {}\n", *source_line);
+        } else {
+            fmt::print("\n");
+        }
+    }
+
     void HandleBreakpoint(std::string_view command) {
         // TODO: Lot of repeated code
         if (!process.Active()) {
@@ -469,50 +486,19 @@ Most often, the correct address will be one below it.)";
         } else if (check_command(subcommands, "set", 2)) {
             uint64_t addr = source.GetAddressFromString(subcommands.at(1), true);
             process.SetBreakpoint(addr);
-            auto line = source.AddrToLine(addr);
-            auto source_line = source.GetLine(*line);
-            fmt::print("Breakpoint set on line {} (addr {})", *line + 1, addr);
-            if (source_line) {
-                fmt::print(": {}\n", *source_line);
-            } else {
-                fmt::print("\n");
-            }
+            PrintBreakpointLocation("set on", addr);
         } else if (check_command(subcommands, "remove", 2)) {
             uint64_t addr = source.GetAddressFromString(subcommands.at(1), true);
             process.UnsetBreakpoint(addr);
-            auto line = source.AddrToLine(addr);
-            assert(line);
-            auto source_line = source.GetLine(*line);
-            fmt::print("Breakpoint removed from line {} (addr {})", *line + 1, addr);
-            if (source_line) {
-                fmt::print(": {}\n", *source_line);
-            } else {
-                fmt::print("\n");
-            }
+            PrintBreakpointLocation("removed from", addr);
         } else if (check_command(subcommands, "enable", 2)) {
             uint64_t addr = source.GetAddressFromString(subcommands.at(1), true);
             process.EnableSoftwareBreakpoint(addr);
-            auto line = source.AddrToLine(addr);
-            assert(line);
-            auto source_line = source.GetLine(*line);
-            fmt::print("Breakpoint enabled on line {} (addr {})", *line + 1, addr);
-            if (source_line) {
-                fmt::print(": {}\n", *source_line);
-            } else {
-                fmt::print("\n");
-            }
+            PrintBreakpointLocation("enabled on", addr);
         } else if (check_command(subcommands, "disable", 2)) {
             uint64_t addr = source.GetAddressFromString(subcommands.at(1), true);
             process.DisableSoftwareBreakpoint(addr);
-            auto line = source.AddrToLine(addr);
-            assert(line);
-            auto source_line = source.GetLine(*line);
-            fmt::print("Breakpoint disabled on line {} (addr {})", *line + 1, addr);
-            if (source_line) {
-                fmt::print(": {}\n", *source_line);
-            } else {
-                fmt::print("\n");
-            }
+            PrintBreakpointLocation("disabled on", addr);
         } else if (check_command(subcommands, "idisable", 2)) {
             auto address = ParseAddress(subcommands.at(1));
             process.DisableSoftwareBreakpoint(address);
-- 
2.43.0


From 32985e4c2a1c7ac6ffe7190bc30c9fefa866d212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:07 +0000
Subject: [PATCH 42/62] fix: the command line debugger reports every error
 instead of terminating on some

---
 src/dbg-cli/CLI.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dbg-cli/CLI.h b/src/dbg-cli/CLI.h
index 7ab13c5..18e55da 100644
--- a/src/dbg-cli/CLI.h
+++ b/src/dbg-cli/CLI.h
@@ -1121,7 +1121,7 @@ Most often, the correct address will be one below it.)";
             linenoiseHistoryAdd(line_raw);
             try {
                 HandleCommand(line);
-            } catch (const DebuggerError& err) {
+            } catch (const std::exception& err) {
                 fmt::print("Error: {}\n", err.what());
             }
 FREE_LINE:
-- 
2.43.0


From 2cb9eb171691b514c7235d06776b0187a60d2c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:07 +0000
Subject: [PATCH 43/62] fix: a failed run doesn't leave a dead process behind
 or abort the debugger

---
 src/dbg-cli/CLI.h | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/src/dbg-cli/CLI.h b/src/dbg-cli/CLI.h
index 18e55da..6f5b6bd 100644
--- a/src/dbg-cli/CLI.h
+++ b/src/dbg-cli/CLI.h
@@ -981,7 +981,6 @@ Most often, the correct address will be one below it.)";
         if (main_command == "") {
             fmt::print("{}", USAGE);
         } else if (utils::is_prefix_of(main_command, "run")) {
-            ExitProcess();
             HandleRun(command);
             return;
         } else if (utils::is_prefix_of(main_command, "attach")) {
@@ -1064,24 +1063,28 @@ Most often, the correct address will be one below it.)";
             memory_size = *v;
         }
 
+        // Everything that can fail because of the program or the options is done
+        // before the previous process is ended and the VM thread started.
+        auto os = std::make_unique<tiny::t86::OS>(reg_count, float_reg_count, memory_size);
+
+        // Breakpoints and watchpoints are carried over into the new process.
+        auto bkpts = process.GetBreakpoints();
+        auto wtchpts = process.GetWatchpoints();
+        ExitProcess();
+
         auto m1 = std::make_unique<ThreadMessengerOwner>();
         auto m2 = std::make_unique<ThreadMessenger>(m1->GetOutQueue(), m1->GetInQueue());
 
         t86vm = std::thread([](std::unique_ptr<ThreadMessenger> messenger,
-                           tiny::t86::Program program, size_t reg_cnt,
-                           double float_reg_cnt, size_t memory_size) {
-            tiny::t86::OS os(reg_cnt, float_reg_cnt, memory_size);
-            os.SetDebuggerComms(std::move(messenger));
-            os.Run(std::move(program));
-        }, std::move(m2), std::move(program), reg_count, float_reg_count, memory_size);
+                           std::unique_ptr<tiny::t86::OS> os,
+                           tiny::t86::Program program) {
+            os->SetDebuggerComms(std::move(messenger));
+            os->Run(std::move(program));
+        }, std::move(m2), std::move(os), std::move(program));
         
         auto t86dbg = std::make_unique<T86Process>(std::move(m1), reg_count,
                                                    float_reg_count, memory_size);
 
-        // This is valid even if process is not yet running.
-        auto bkpts = process.GetBreakpoints();
-        auto wtchpts = process.GetWatchpoints();
-
         // Set those guys at the end in case something fails mid-way.
         process = Native(std::move(t86dbg));
         this->source = std::move(source);
@@ -1097,10 +1100,16 @@ Most often, the correct address will be one below it.)";
     // Cleanly exits the underlying VM if running.
     void ExitProcess() {
         if (process.Active()) {
-            process.Terminate();
+            try {
+                process.Terminate();
+            } catch (const std::exception& err) {
+                // The process (and the connection to it) may be gone already.
+                log_info("Terminating the process failed: {}", err.what());
+            }
             if (t86vm.joinable()) {
                 t86vm.join();
             }
+            process = Native();
         }
     }
 
-- 
2.43.0


From cdad2872763ce32ea28ed6797345de3a02c96254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:07 +0000
Subject: [PATCH 44/62] fix: attach reports a missing or wrong port and a
 failed connection

---
 src/dbg-cli/CLI.h | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/dbg-cli/CLI.h b/src/dbg-cli/CLI.h
index 6f5b6bd..63a2e97 100644
--- a/src/dbg-cli/CLI.h
+++ b/src/dbg-cli/CLI.h
@@ -984,10 +984,7 @@ Most often, the correct address will be one below it.)";
             HandleRun(command);
             return;
         } else if (utils::is_prefix_of(main_command, "attach")) {
-            ExitProcess();
             Attach(command);
-            is_running = true;
-            process.WaitForDebugEvent();
             return;
         } else if (utils::is_prefix_of(main_command, "help")) {
             HandleHelp(command);
@@ -1167,22 +1164,25 @@ private:
     void Attach(std::string_view command) {
         auto subcommands = utils::split_v(command);
         if (subcommands.size() < 1) {
-            fmt::print("A port is needed, use `attach <port>`");
-            return;
+            Error("A port is needed, use `attach <port>`");
         }
         auto port_o = utils::svtonum<int>(subcommands.at(0));
-        if (!port_o) {
-            fmt::print("Expected port, got '{}'", *port_o);
+        if (!port_o || *port_o < 1 || *port_o > 65535) {
+            Error("Expected port, got '{}'", subcommands.at(0));
         }
-        auto debuggee = Native::Initialize(*port_o);
-        process = Native(std::move(debuggee));
+        Source new_source;
         if (fname) {
             std::ifstream file(*fname);
             if (!file) {
                 Error("Unable to open file '{}'\n", *fname);
             }
-            source = ParseDebugInfo(file);
+            new_source = ParseDebugInfo(file);
         }
+        ExitProcess();
+        process = Native(Native::Initialize(*port_o));
+        source = std::move(new_source);
+        is_running = true;
+        process.WaitForDebugEvent();
     }
 
     Source ParseDebugInfo(std::ifstream& file) {
-- 
2.43.0


From f71c22e52404924aa2ffa1c7a85bfdf7fd963ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:07 +0000
Subject: [PATCH 45/62] fix: source from with a huge amount ends at the last
 line

---
 src/dbg-cli/CLI.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dbg-cli/CLI.h b/src/dbg-cli/CLI.h
index 63a2e97..b6c81ef 100644
--- a/src/dbg-cli/CLI.h
+++ b/src/dbg-cli/CLI.h
@@ -348,7 +348,8 @@ public:
         for (size_t i = from; i < to; ++i) {
             auto line = source.GetLine(i);
             if (!line) {
-                continue;
+                // There are no lines after the last one.
+                break;
             }
             std::string pretty_rest;
             if (curr_loc && i == *curr_loc) {
@@ -747,7 +748,7 @@ Most often, the correct address will be one below it.)";
             auto from_line = line - 1;
             auto amount = subcommands.size() >= 3
                             ? ParseAddress(subcommands.at(2))
-                            : source.GetLines().size() - from_line;
+                            : source.GetLines().size();
             PrintCode(from_line, from_line + amount);
         } else {
             fmt::print("{}", SOURCE_USAGE);
-- 
2.43.0


From ab49c0c9342f2f3c30cb57d190095467f58bb6b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:07 +0000
Subject: [PATCH 46/62] fix: breakpoint list numbers lines from one like every
 other command

---
 src/dbg-cli/CLI.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dbg-cli/CLI.h b/src/dbg-cli/CLI.h
index b6c81ef..77f1888 100644
--- a/src/dbg-cli/CLI.h
+++ b/src/dbg-cli/CLI.h
@@ -517,7 +517,7 @@ Most often, the correct address will be one below it.)";
             for (auto&& [addr, b]: bps) {
                 auto line = source.AddrToLine(addr);
                 fmt::print("addr: {}{}; {}", addr,
-                        line ? fmt::format(", line: {}", *line) : "",
+                        line ? fmt::format(", line: {}", *line + 1) : "",
                         b.enabled ? "enabled" : "disabled");
                 auto fun = source.GetFunctionNameByAddress(addr);
                 if (fun) {
-- 
2.43.0


From 3bf6f180251a0dc74d0f7bf928aeb17383df3959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:07 +0000
Subject: [PATCH 47/62] fix: disassemble range includes its end as documented

---
 src/dbg-cli/CLI.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/dbg-cli/CLI.h b/src/dbg-cli/CLI.h
index 77f1888..e790859 100644
--- a/src/dbg-cli/CLI.h
+++ b/src/dbg-cli/CLI.h
@@ -697,7 +697,10 @@ Most often, the correct address will be one below it.)";
         } else if (check_command(subcommands, "range", 3)) {
             auto begin = ParseAddress(subcommands.at(1));
             auto end = ParseAddress(subcommands.at(2));
-            auto text = process.ReadText(begin, end - begin);
+            if (end < begin) {
+                Error("Expected range of addresses, got '{}', '{}'", begin, end);
+            }
+            auto text = process.ReadText(begin, end - begin + 1);
             PrintText(begin, text);
         } else if (check_command(subcommands, "from", 2)) {
             auto begin = ParseAddress(subcommands.at(1));
-- 
2.43.0


From d41b5c07c6a81ecf90ef85c05daf33f905d41878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:07 +0000
Subject: [PATCH 48/62] fix: breakpoint unset and iunset exist as documented

---
 src/dbg-cli/CLI.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/dbg-cli/CLI.h b/src/dbg-cli/CLI.h
index e790859..defdaab 100644
--- a/src/dbg-cli/CLI.h
+++ b/src/dbg-cli/CLI.h
@@ -488,7 +488,8 @@ Most often, the correct address will be one below it.)";
             uint64_t addr = source.GetAddressFromString(subcommands.at(1), true);
             process.SetBreakpoint(addr);
             PrintBreakpointLocation("set on", addr);
-        } else if (check_command(subcommands, "remove", 2)) {
+        } else if (check_command(subcommands, "unset", 2)
+                || check_command(subcommands, "remove", 2)) {
             uint64_t addr = source.GetAddressFromString(subcommands.at(1), true);
             process.UnsetBreakpoint(addr);
             PrintBreakpointLocation("removed from", addr);
@@ -508,7 +509,8 @@ Most often, the correct address will be one below it.)";
             auto address = ParseAddress(subcommands.at(1));
             process.EnableSoftwareBreakpoint(address);
             fmt::print("Breakpoint enabled at address {}\n", address);
-        } else if (check_command(subcommands, "iremove", 2)) {
+        } else if (check_command(subcommands, "iunset", 2)
+                || check_command(subcommands, "iremove", 2)) {
             auto address = ParseAddress(subcommands.at(1));
             process.UnsetBreakpoint(address);
             fmt::print("Breakpoint removed from address {}\n", address);
-- 
2.43.0


From 71107904de894cc64fcd81261b7d1775ec8197c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:27 +0000
Subject: [PATCH 49/62] fix: memory setstr keeps the whitespace of the string

---
 src/dbg-cli/CLI.h | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/dbg-cli/CLI.h b/src/dbg-cli/CLI.h
index defdaab..24344d1 100644
--- a/src/dbg-cli/CLI.h
+++ b/src/dbg-cli/CLI.h
@@ -860,7 +860,8 @@ Most often, the correct address will be one below it.)";
             if (!cell) {
                 Error("Expected memory cell and string");
             }
-            auto str = utils::join(std::next(subcommands.begin(), 2), subcommands.end());
+            // The string itself may contain any amount of spaces.
+            auto str = command.substr(subcommands.at(2).data() - command.data());
             auto unescaped_str = ParseString(str);
             log_info("setstr: string = '{}'", unescaped_str);
             std::vector<int64_t> data;
@@ -1126,7 +1127,7 @@ Most often, the correct address will be one below it.)";
             prompt = "";
         }
         while((line_raw = linenoise(prompt)) != NULL) {
-            std::string line = utils::squash_strip_whitespace(line_raw);
+            std::string line = NormalizeCommand(line_raw);
             if (line == "") {
                 goto FREE_LINE;
             }
@@ -1143,6 +1144,24 @@ FREE_LINE:
         return exit_code;
     }
 private:
+    /// Squashes and strips the whitespace of a command, except for the
+    /// whitespace in the string at the end of it (if there is any).
+    static std::string NormalizeCommand(std::string_view raw) {
+        auto quote = raw.find('"');
+        auto line = utils::squash_strip_whitespace(raw.substr(0, quote));
+        if (quote == raw.npos) {
+            return line;
+        }
+        if (quote > 0 && std::isspace(raw[quote - 1])) {
+            line += ' ';
+        }
+        auto string = raw.substr(quote);
+        while (std::isspace(string.back())) {
+            string.remove_suffix(1);
+        }
+        return line.append(string);
+    }
+
     /// Checks if there is a command with `searched_command`
     /// prefix and return the suffix.
     /// ie. use for `--reg-count=<This-is-returned>`.
-- 
2.43.0


From 0c5804a648904689c5c072212400016ddac98180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:27 +0000
Subject: [PATCH 50/62] fix: t86-cli reports lexical errors at the beginning of
 the program

---
 src/t86-cli/main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/t86-cli/main.cpp b/src/t86-cli/main.cpp
index 693e76d..ae68df3 100644
--- a/src/t86-cli/main.cpp
+++ b/src/t86-cli/main.cpp
@@ -58,9 +58,9 @@ int main(int argc, char* argv[]) {
         return 3;
     }
 
-    Parser parser(f);
     tiny::t86::Program program;
     try {
+        Parser parser(f);
         program = parser.Parse();
         // program.dump();
     } catch (ParserError &err) {
-- 
2.43.0


From e4d00e47afb6dc393f27f0c12997535e6c3f6d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:02 +0000
Subject: [PATCH 51/62] fix: a program which doesn't fit into the memory is
 reported instead of hanging the debugger

---
 src/dbg-cli/CLI.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/dbg-cli/CLI.h b/src/dbg-cli/CLI.h
index 24344d1..5592461 100644
--- a/src/dbg-cli/CLI.h
+++ b/src/dbg-cli/CLI.h
@@ -1094,7 +1094,11 @@ Most often, the correct address will be one below it.)";
         this->source = std::move(source);
 
         is_running = true;
-        process.WaitForDebugEvent();
+        auto e = process.WaitForDebugEvent();
+        if (std::holds_alternative<CpuError>(e)) {
+            is_running = false;
+            Error("The program '{}' can't be loaded into the VM", *fname);
+        }
         process.SetAllBreakpoints(std::move(bkpts));
         process.SetAllWatchpoints(std::move(wtchpts));
         fmt::print("Started process '{}'\n", *fname);
-- 
2.43.0


From a6c9147f64938d608d1c26ab9519453d8b3cb34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:02 +0000
Subject: [PATCH 52/62] fix: t86-cli reports malformed values of options

---
 src/t86-cli/main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/t86-cli/main.cpp b/src/t86-cli/main.cpp
index ae68df3..febd9ce 100644
--- a/src/t86-cli/main.cpp
+++ b/src/t86-cli/main.cpp
@@ -45,7 +45,7 @@ int main(int argc, char* argv[]) {
 
     try {
         args.parse_args(argc, argv);
-    } catch (const std::runtime_error& err) {
+    } catch (const std::exception& err) {
         std::cerr << err.what() << "\n";
         std::cerr << args;
         std::exit(1);
-- 
2.43.0


From 6cf97f2a5a82d34e0e883983f7396ed12336bd2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:57 +0000
Subject: [PATCH 53/62] fix: step over and step out know calls and returns
 under disabled breakpoints

---
 src/debugger/Native.cpp | 19 +++++++++++++++++--
 src/debugger/Native.h   |  4 ++++
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/debugger/Native.cpp b/src/debugger/Native.cpp
index 4e5830a..fa422b9 100644
--- a/src/debugger/Native.cpp
+++ b/src/debugger/Native.cpp
@@ -71,6 +71,21 @@ std::vector<std::string> Native::ReadText(uint64_t address, size_t amount) {
     return text;
 }
 
+std::string Native::ReadInstruction(uint64_t address) {
+    auto it = software_breakpoints.find(address);
+    if (it != software_breakpoints.end() && it->second.enabled) {
+        return it->second.data;
+    }
+    // A disabled breakpoint may not remember the instruction it is on,
+    // but the instruction is in the program.
+    auto text_size = TextSize();
+    if (address >= text_size) {
+        throw DebuggerError(
+            fmt::format("No instruction at {}, text size is {}", address, text_size));
+    }
+    return process->ReadText(address, 1).at(0);
+}
+
 void Native::WriteText(uint64_t address, std::vector<std::string> text) {
     auto text_size = TextSize();
     if (address > text_size || text.size() > text_size - address) {
@@ -118,7 +133,7 @@ DebugEvent Native::PerformStepOver(bool skip_bp) {
             "Singlestep is not supported for current architecture");
     }
     auto ip = GetIP();
-    auto text = ReadText(ip, 1)[0];
+    auto text = ReadInstruction(ip);
     auto calls = Arch::GetCallInstructions();
     auto is_call = std::find_if(calls.begin(), calls.end(),
                                 [&text](auto&& ins) { return text.starts_with(ins); });
@@ -195,7 +210,7 @@ DebugEvent Native::PerformStepOut() {
     bool skip_bp = true;
     while (true) {
         auto ip = GetIP();
-        auto text = ReadText(ip, 1).at(0);
+        auto text = ReadInstruction(ip);
         auto rets = Arch::GetReturnInstructions();
         auto is_return =
             std::find_if(rets.begin(), rets.end(),
diff --git a/src/debugger/Native.h b/src/debugger/Native.h
index d422705..dc4da9a 100644
--- a/src/debugger/Native.h
+++ b/src/debugger/Native.h
@@ -160,6 +160,10 @@ public:
     /// Does singlestep, does not check for breakpoints.
     DebugEvent DoRawSingleStep();
 protected:
+    /// Returns the instruction of the program at the address,
+    /// whether or not there is a breakpoint on it.
+    std::string ReadInstruction(uint64_t address);
+
     /// Maps the DebugEvent to a reason.
     DebugEvent MapReasonToEvent(StopReason reason);
 
-- 
2.43.0


From 2fceffa55b3be846c1f9c47a7e3104be7675b4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:02 +0000
Subject: [PATCH 54/62] fix: the memory used by a run doesn't grow with its
 length

OS::Run collected statistics of every tick, which nobody can read there.
---
 src/t86/os.cpp                 |  3 +++
 src/t86/utils/stats_logger.cpp | 13 ++++++++++++-
 src/t86/utils/stats_logger.h   |  6 ++++++
 3 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/t86/os.cpp b/src/t86/os.cpp
index 4de5536..bf2ae44 100644
--- a/src/t86/os.cpp
+++ b/src/t86/os.cpp
@@ -5,6 +5,7 @@
 #include "os.h"
 #include "debug.h"
 #include "common/logger.h"
+#include "utils/stats_logger.h"
 
 namespace tiny::t86 {
 void OS::DispatchInterrupt(int n) {
@@ -26,6 +27,8 @@ void OS::DispatchInterrupt(int n) {
 }
 
 bool OS::Run(Program program) {
+    // There is no one to read the statistics.
+    StatsLogger::instance().discard();
     try {
         cpu.start(std::move(program));
     } catch (const std::exception& e) {
diff --git a/src/t86/utils/stats_logger.cpp b/src/t86/utils/stats_logger.cpp
index 201f9ce..66fc196 100644
--- a/src/t86/utils/stats_logger.cpp
+++ b/src/t86/utils/stats_logger.cpp
@@ -30,6 +30,9 @@ namespace tiny::t86 {
     }
 
     void StatsLogger::newTick() {
+        if (discard_) {
+            ticks_.clear();
+        }
         ticks_.emplace_back();
     }
 
@@ -88,6 +91,12 @@ namespace tiny::t86 {
         ticks_.clear();
         instructions_.clear();
         id_ = 0;
+        discard_ = false;
+    }
+
+    void StatsLogger::discard() {
+        reset();
+        discard_ = true;
     }
 
     StatsLogger::TickStats& StatsLogger::currentTick() {
@@ -160,7 +169,9 @@ namespace tiny::t86 {
     }
 
     std::size_t StatsLogger::registerNewInstruction(std::size_t pc, const Instruction* instruction) {
-        instructions_.emplace(id_, std::make_pair(pc, instruction));
+        if (!discard_) {
+            instructions_.emplace(id_, std::make_pair(pc, instruction));
+        }
         return id_++;
     }
 
diff --git a/src/t86/utils/stats_logger.h b/src/t86/utils/stats_logger.h
index 17162e2..da05401 100644
--- a/src/t86/utils/stats_logger.h
+++ b/src/t86/utils/stats_logger.h
@@ -19,6 +19,10 @@ namespace tiny::t86 {
         // Resets all the stats, should be called before every new run
         void reset();
 
+        // Until the next reset only the current tick is remembered, so that
+        // the memory used doesn't depend on the length of the run.
+        void discard();
+
         void newTick();
 
         std::size_t registerNewInstruction(std::size_t pc, const Instruction* instruction);
@@ -128,6 +132,8 @@ namespace tiny::t86 {
         // Each instruction gets its id
         std::size_t id_{0};
 
+        bool discard_{false};
+
         // Some ids might be missing, as wrongly speculated ones will be removed
         std::unordered_map<std::size_t, std::pair<std::size_t, const Instruction*>> instructions_;
     };
-- 
2.43.0


From 7d45f9ae185c9952e8c4406f36bc0695aaf11317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:03 +0000
Subject: [PATCH 55/62] fix: average fetch and decode stalls don't count the
 first tick of every instruction

---
 src/t86/utils/stats_logger.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/t86/utils/stats_logger.cpp b/src/t86/utils/stats_logger.cpp
index 66fc196..cdf3ab7 100644
--- a/src/t86/utils/stats_logger.cpp
+++ b/src/t86/utils/stats_logger.cpp
@@ -134,8 +134,8 @@ namespace tiny::t86 {
     void StatsLogger::processAverageLifetime(std::ostream& os, const StatsLogger::InstructionLifeTime& lt, std::size_t totalCount) {
         os << "  Times executed: " << totalCount << '\n'
            << "  Average instruction lifetime: " << static_cast<double>(lt.totalTime()) / totalCount << " ticks\n"
-           << "    Average fetch stalls: " << static_cast<double>(lt.fetch - 1) / totalCount << " ticks\n"
-           << "    Average decode stalls: " << static_cast<double>(lt.decode - 1) / totalCount << " ticks\n"
+           << "    Average fetch stalls: " << static_cast<double>(lt.fetch - totalCount) / totalCount << " ticks\n"
+           << "    Average decode stalls: " << static_cast<double>(lt.decode - totalCount) / totalCount << " ticks\n"
            << "    Average operand fetching stalls: " << static_cast<double>(lt.fetchingStalls) / totalCount << " ticks\n";
 
         std::size_t totalWaitingForRegisters = 0;
-- 
2.43.0


From 9d016e332cbe5814dfc18a15ed7ae3800cf63901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:39 +0000
Subject: [PATCH 56/62] fix: the default machine has the configured sizes

The numbers of ALUs and of reservation station entries were used as the
number of float registers and the size of the memory.
---
 src/t86/cpu.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/t86/cpu.cpp b/src/t86/cpu.cpp
index 34d7ccc..0442771 100644
--- a/src/t86/cpu.cpp
+++ b/src/t86/cpu.cpp
@@ -339,8 +339,11 @@ namespace tiny::t86 {
     }
 
     Cpu::Cpu() : Cpu(Cpu::Config::instance().registerCnt(),
+                     Cpu::Config::instance().floatRegisterCnt(),
                      Cpu::Config::instance().aluCnt(),
-                     Cpu::Config::instance().reservationStationEntriesCnt()) {}
+                     Cpu::Config::instance().reservationStationEntriesCnt(),
+                     Cpu::Config::instance().ramSize(),
+                     Cpu::Config::instance().ramGatesCount()) {}
 
     MemoryWrite::Id Cpu::registerPendingWrite(Memory::Immediate mem) {
         return writesManager_.registerPendingWrite(mem.index());
-- 
2.43.0


From 8811d01d5ae11b2a3c97c5f6be1b2aae8bf5a895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:39 +0000
Subject: [PATCH 57/62] fix: Reg refuses the first register which doesn't exist

---
 src/t86/program/helpers.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/t86/program/helpers.cpp b/src/t86/program/helpers.cpp
index 9a8a67e..91d34e0 100644
--- a/src/t86/program/helpers.cpp
+++ b/src/t86/program/helpers.cpp
@@ -2,7 +2,7 @@
 
 namespace tiny::t86 {
     Register Reg(size_t index) {
-        if (index > Cpu::Config::instance().registerCnt()) {
+        if (index >= Cpu::Config::instance().registerCnt()) {
             throw InvalidRegister(Register(index));
         }
         return Register(index);
-- 
2.43.0


From 2b684d3803f69b5a170ca84ef8e767de50868b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:39 +0000
Subject: [PATCH 58/62] fix: forget addresses without pending writes

The map of pending writes kept an entry for every address a store was ever
issued to, also on wrongly predicted paths, so a long run used more and more
memory and every tick went through all of them.
---
 src/t86/cpu/memory_writes_manager.cpp             | 12 ++++++++----
 src/t86/cpu/memory_writes_manager/memory_writes.h |  4 ++++
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/t86/cpu/memory_writes_manager.cpp b/src/t86/cpu/memory_writes_manager.cpp
index d00525c..b8f9b26 100644
--- a/src/t86/cpu/memory_writes_manager.cpp
+++ b/src/t86/cpu/memory_writes_manager.cpp
@@ -39,20 +39,24 @@ namespace tiny::t86 {
     }
 
     void MemoryWritesManager::removeFinished(const RAM& ram) {
-        for (auto& [address, writes] : writesMap_) {
-            auto removedIds = writes.removeFinished(ram);
+        for (auto it = writesMap_.begin(); it != writesMap_.end();) {
+            auto removedIds = it->second.removeFinished(ram);
             for (MemoryWrite::Id id : removedIds) {
                 writesById.erase(id);
             }
+            // Keep only addresses with some writes
+            it = it->second.empty() ? writesMap_.erase(it) : std::next(it);
         }
     }
 
     void MemoryWritesManager::removePending() {
-        for (auto& [address, writes] : writesMap_) {
-            auto removedIds = writes.removePending();
+        for (auto it = writesMap_.begin(); it != writesMap_.end();) {
+            auto removedIds = it->second.removePending();
             for (MemoryWrite::Id id : removedIds) {
                 writesById.erase(id);
             }
+            // Keep only addresses with some writes
+            it = it->second.empty() ? writesMap_.erase(it) : std::next(it);
         }
         unspecifiedWrites_.clear();
     }
diff --git a/src/t86/cpu/memory_writes_manager/memory_writes.h b/src/t86/cpu/memory_writes_manager/memory_writes.h
index 1204b69..dd6fbb0 100644
--- a/src/t86/cpu/memory_writes_manager/memory_writes.h
+++ b/src/t86/cpu/memory_writes_manager/memory_writes.h
@@ -37,6 +37,10 @@ namespace tiny::t86 {
          */
         std::vector<MemoryWrite::Id> removePending();
 
+        bool empty() const {
+            return writes_.empty();
+        }
+
     private:
         // This is used to sort and lookup in the writes
         // It is sorting from largest to smallest to find writes with equal or lesser id
-- 
2.43.0


From 865d043c8d14264496e898cdc8fc61dfd1107cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:45 +0000
Subject: [PATCH 59/62] fix: use the size of the attached machine

The debugger assumed 10 registers, 4 float registers and 1024 memory cells
of a machine it attached to: the registers and the memory beyond were
refused, even though t86-cli can be told to have more of them.
---
 src/debugger/T86Process.cpp | 21 +++++++++++++++++++++
 src/debugger/T86Process.h   | 17 +++++++++++++----
 2 files changed, 34 insertions(+), 4 deletions(-)

diff --git a/src/debugger/T86Process.cpp b/src/debugger/T86Process.cpp
index acbd458..0e8f621 100644
--- a/src/debugger/T86Process.cpp
+++ b/src/debugger/T86Process.cpp
@@ -1,4 +1,6 @@
 #include "debugger/T86Process.h"
+#include <algorithm>
+#include <cstring>
 
 
 /// Writes into the processes text area, overwriting instructions.
@@ -164,6 +166,25 @@ void T86Process::Wait() {
     if (!message || message != "STOPPED") {
         throw DebuggerError(fmt::format("Expected STOPPED message in Wait()"));
     }
+    if (!size_known) {
+        FetchMachineSize();
+    }
+}
+
+void T86Process::FetchMachineSize() {
+    // IP, BP and SP are reported along with the general purpose registers.
+    auto regs = FetchRegisters();
+    gen_purpose_regs_count = std::count_if(regs.begin(), regs.end(),
+            [](auto&& reg) { return reg.first[0] == 'R'; });
+    float_regs_count = FetchFloatRegisters().size();
+    process->Send("DATASIZE");
+    auto response = process->Receive();
+    if (!response) {
+        throw DebuggerError("DATASIZE error");
+    }
+    CheckNotError(*response);
+    data_size = std::stoull(response->c_str() + strlen("DATASIZE:"));
+    size_known = true;
 }
 
 void T86Process::Terminate() {
diff --git a/src/debugger/T86Process.h b/src/debugger/T86Process.h
index 88b6fd3..05978c5 100644
--- a/src/debugger/T86Process.h
+++ b/src/debugger/T86Process.h
@@ -15,7 +15,12 @@
 
 class T86Process: public Process {
 public:
-    T86Process(std::unique_ptr<Messenger> process, size_t gp_reg_cnt = 10,
+    /// The size of the machine is asked for at the first stop.
+    explicit T86Process(std::unique_ptr<Messenger> process)
+                    : process(std::move(process)), size_known(false) {
+    }
+
+    T86Process(std::unique_ptr<Messenger> process, size_t gp_reg_cnt,
                size_t float_reg_cnt = 4, size_t data_size = 1024)
                     : process(std::move(process)),
                       data_size(data_size),
@@ -120,9 +125,13 @@ private:
 
     void CheckResponse(std::string_view error_message);
 
+    /// Asks the VM for the amount of registers and memory it has.
+    void FetchMachineSize();
+
     std::unique_ptr<Messenger> process;
-    const size_t data_size{1024};
-    const size_t gen_purpose_regs_count{8};
-    const size_t float_regs_count{4};
+    bool size_known{true};
+    size_t data_size{1024};
+    size_t gen_purpose_regs_count{8};
+    size_t float_regs_count{4};
     const size_t debug_register_cnt{5};
   };
-- 
2.43.0


From 205af8d2f30429e1c12f2d9d162195252297f8be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:36 +0000
Subject: [PATCH 60/62] fix: keep breakpoints and watchpoints when a run fails

A program which can't be loaded (for example into too little memory) made
the debugger forget the breakpoints and watchpoints for the next run.
---
 src/dbg-cli/CLI.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dbg-cli/CLI.h b/src/dbg-cli/CLI.h
index 5592461..4a954d9 100644
--- a/src/dbg-cli/CLI.h
+++ b/src/dbg-cli/CLI.h
@@ -1095,12 +1095,12 @@ Most often, the correct address will be one below it.)";
 
         is_running = true;
         auto e = process.WaitForDebugEvent();
+        process.SetAllBreakpoints(std::move(bkpts));
+        process.SetAllWatchpoints(std::move(wtchpts));
         if (std::holds_alternative<CpuError>(e)) {
             is_running = false;
             Error("The program '{}' can't be loaded into the VM", *fname);
         }
-        process.SetAllBreakpoints(std::move(bkpts));
-        process.SetAllWatchpoints(std::move(wtchpts));
         fmt::print("Started process '{}'\n", *fname);
     }
 
-- 
2.43.0


From e700b2c358ba2c42ffb0efb0e8f986b37e45ade0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:36 +0000
Subject: [PATCH 61/62] fix: keep the process when attaching to another one
 fails

The running process and its breakpoints were gone even though there was
nothing to connect to.
---
 src/dbg-cli/CLI.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dbg-cli/CLI.h b/src/dbg-cli/CLI.h
index 4a954d9..fd43d71 100644
--- a/src/dbg-cli/CLI.h
+++ b/src/dbg-cli/CLI.h
@@ -1207,8 +1207,9 @@ private:
             }
             new_source = ParseDebugInfo(file);
         }
+        auto debuggee = Native::Initialize(*port_o);
         ExitProcess();
-        process = Native(Native::Initialize(*port_o));
+        process = Native(std::move(debuggee));
         source = std::move(new_source);
         is_running = true;
         process.WaitForDebugEvent();
-- 
2.43.0


From 2c41f658561a38672bb3834e677958a05d5cec66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:45 +0000
Subject: [PATCH 62/62] fix: the runner only reads its program file

It was opened for writing too: a program that may only be read was refused,
and one that comes through a pipe was never found to end.
---
 src/t86-cli/main.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/t86-cli/main.cpp b/src/t86-cli/main.cpp
index febd9ce..39b8dbd 100644
--- a/src/t86-cli/main.cpp
+++ b/src/t86-cli/main.cpp
@@ -52,8 +52,9 @@ int main(int argc, char* argv[]) {
     }
 
     std::string filename = args.get<std::string>("file");
-    std::fstream f(filename);
-    if (!f) {
+    std::ifstream f(filename);
+    // A directory can be opened, but reading from it fails
+    if (!f || (f.peek(), f.bad())) {
         std::cerr << "Unable to open file `" << filename << "`\n";
         return 3;
     }
-- 
2.43.0

