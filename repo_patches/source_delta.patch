From 9899ec63576d97f163c1c7182cb3a3add3c33d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:36 +0000
Subject: [PATCH 01/26] fix: do not read past the end of the token stream when
 closing comments and tagged strings

---
 src/core/parser.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/core/parser.go b/src/core/parser.go
index 7a52698..d75740a 100644
--- a/src/core/parser.go
+++ b/src/core/parser.go
@@ -974,6 +974,9 @@ func (parser *Parser) closeTaggedString(literal string) bool {
 	if literal != node.tag {
 		return false
 	}
+	if parser.stream.End() {
+		return false
+	}
 	next := parser.stream.Current()
 	if next.Type != TokenType_STRING_DELIMITER {
 		return false
@@ -1071,6 +1074,9 @@ func (parser *Parser) openBlockComment(token Token, delimiter string, nested boo
 // Attempt to close the block comment parsing context, report whether the context was closed
 func (parser *Parser) closeBlockComment() bool {
 	node := parser.context.node.(*blockCommentNode)
+	if parser.stream.End() {
+		return false
+	}
 	token := parser.stream.Current()
 	if token.Type != TokenType_COMMENT {
 		return false
-- 
2.43.0


From 36aa57c4988a1feb9c35dae71b808982a8e43109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:42 +0000
Subject: [PATCH 02/26] fix: keep non-ASCII bytes intact in character access
 and escape sequences

---
 src/core/tokenizer.go | 2 +-
 src/core/values.go    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/tokenizer.go b/src/core/tokenizer.go
index 4e0c325..73b3817 100644
--- a/src/core/tokenizer.go
+++ b/src/core/tokenizer.go
@@ -165,7 +165,7 @@ func (tokenizer *Tokenizer) Next() *Token {
 					emittedToken = tokenizer.addToken(TokenType_CONTINUATION, position, &literal)
 					break
 				}
-				escape := string(e) // Default value for unrecognized sequences
+				escape := string([]byte{e}) // Default value for unrecognized sequences
 				if isEscape(e) {
 					escape = string(getEscape(e))
 				} else if isOctal(e) {
diff --git a/src/core/values.go b/src/core/values.go
index 22f9fa2..36b6e07 100644
--- a/src/core/values.go
+++ b/src/core/values.go
@@ -394,7 +394,7 @@ func StringAtOrDefault(value string, index Value, def Value) Result {
 			return ERROR(`index out of range "` + fmt.Sprint(i) + `"`)
 		}
 	}
-	return OK(StringValue{string(value[i])})
+	return OK(StringValue{value[i : i+1]})
 }
 
 func (value StringValue) Display(_ DisplayFunction) string {
-- 
2.43.0


From 312687af3d125d3236f77242a1d9a13bea46d607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:21 +0000
Subject: [PATCH 03/26] fix: report syntax errors of compiled scripts as error
 results instead of crashing

---
 src/core/evaluator.go       | 16 +++++-----------
 src/core/syntax.go          | 12 ++++++++++++
 src/helena_dialect/core.go  | 21 ++++++++++++++++++++-
 src/helena_dialect/lists.go | 13 +++++++++----
 4 files changed, 46 insertions(+), 16 deletions(-)

diff --git a/src/core/evaluator.go b/src/core/evaluator.go
index eafcab4..fe247a4 100644
--- a/src/core/evaluator.go
+++ b/src/core/evaluator.go
@@ -52,7 +52,8 @@ func NewCompilingEvaluator(
 // Evaluate a script and return result
 //
 // This will compile then execute the script
-func (evaluator *CompilingEvaluator) EvaluateScript(script Script) Result {
+func (evaluator *CompilingEvaluator) EvaluateScript(script Script) (result Result) {
+	defer RecoverSyntaxError(&result)
 	program := evaluator.compiler.CompileScript(script)
 	return evaluator.executor.Execute(program, nil)
 }
@@ -60,7 +61,8 @@ func (evaluator *CompilingEvaluator) EvaluateScript(script Script) Result {
 // Evaluate a sentence and return result
 //
 // This will execute a single-sentence script
-func (evaluator *CompilingEvaluator) EvaluateSentence(sentence Sentence) Result {
+func (evaluator *CompilingEvaluator) EvaluateSentence(sentence Sentence) (result Result) {
+	defer RecoverSyntaxError(&result)
 	script := Script{}
 	script.Sentences = append(script.Sentences, sentence)
 	program := evaluator.compiler.CompileScript(script)
@@ -71,15 +73,7 @@ func (evaluator *CompilingEvaluator) EvaluateSentence(sentence Sentence) Result
 //
 // This will execute a single-word program
 func (evaluator *CompilingEvaluator) EvaluateWord(word Word) (result Result) {
-	defer func() {
-		if err := recover(); err != nil {
-			if e, ok := err.(SyntaxError); ok {
-				result = ERROR(e.message)
-			} else {
-				panic(err)
-			}
-		}
-	}()
+	defer RecoverSyntaxError(&result)
 	program := evaluator.compiler.CompileWord(word)
 	return evaluator.executor.Execute(program, nil)
 }
diff --git a/src/core/syntax.go b/src/core/syntax.go
index e112dee..be458de 100644
--- a/src/core/syntax.go
+++ b/src/core/syntax.go
@@ -15,6 +15,18 @@ func (e SyntaxError) Error() string {
 	return e.message
 }
 
+// Deferred function converting a raised syntax error to an error result. Other
+// panics are passed through
+func RecoverSyntaxError(result *Result) {
+	if err := recover(); err != nil {
+		e, ok := err.(SyntaxError)
+		if !ok {
+			panic(err)
+		}
+		*result = ERROR(e.message)
+	}
+}
+
 // Thrown when a word has an invalid structure
 var InvalidWordStructureError = SyntaxError{"invalid word structure"}
 
diff --git a/src/helena_dialect/core.go b/src/helena_dialect/core.go
index b0361eb..550c939 100644
--- a/src/helena_dialect/core.go
+++ b/src/helena_dialect/core.go
@@ -304,8 +304,27 @@ func (scope *Scope) NewLocalScope(slots map[string]uint, values []core.Value) *S
 }
 
 func (scope *Scope) Compile(script core.Script) *core.Program {
-	return scope.compiler.CompileScript(script)
+	program, result := scope.compileScript(script)
+	if result.Code != core.ResultCode_OK {
+		// Raise the syntax error upon execution
+		return scope.CompileArgs([]core.Value{core.NewCommandValue(syntaxErrorCmd{result})})
+	}
+	return program
 }
+func (scope *Scope) compileScript(script core.Script) (program *core.Program, result core.Result) {
+	defer core.RecoverSyntaxError(&result)
+	return scope.compiler.CompileScript(script), core.OK(core.NIL)
+}
+
+// Command raising the error of a script that couldn't be compiled
+type syntaxErrorCmd struct {
+	result core.Result
+}
+
+func (cmd syntaxErrorCmd) Execute(_ []core.Value, _ any) core.Result {
+	return cmd.result
+}
+
 func (scope *Scope) Execute(program *core.Program, state *core.ProgramState) core.Result {
 	return scope.executor.Execute(program, state)
 }
diff --git a/src/helena_dialect/lists.go b/src/helena_dialect/lists.go
index d5532af..1ccc8e9 100644
--- a/src/helena_dialect/lists.go
+++ b/src/helena_dialect/lists.go
@@ -433,11 +433,12 @@ func ValueToArray(value core.Value) (core.Result, []core.Value) {
 		if script.Cache.Values != nil {
 			return core.OK(core.NIL), script.Cache.Values
 		}
-		program := core.NewCompiler(nil).CompileSentences(
-			value.(core.ScriptValue).Script.Sentences,
-		)
+		program, result := compileSentences(script.Script.Sentences)
+		if result.Code != core.ResultCode_OK {
+			return core.ERROR("invalid list"), nil
+		}
 		listExecutor := core.Executor{}
-		result := listExecutor.Execute(program, nil)
+		result = listExecutor.Execute(program, nil)
 		if result.Code != core.ResultCode_OK {
 			return core.ERROR("invalid list"), nil
 		}
@@ -446,6 +447,10 @@ func ValueToArray(value core.Value) (core.Result, []core.Value) {
 	}
 	return core.ValueToValues(value)
 }
+func compileSentences(sentences []core.Sentence) (program *core.Program, result core.Result) {
+	defer core.RecoverSyntaxError(&result)
+	return core.NewCompiler(nil).CompileSentences(sentences), core.OK(core.NIL)
+}
 
 func DisplayListValue(
 	list core.ListValue,
-- 
2.43.0


From 8fa3f27fbead437e4bfe9cf06f1080e114045bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:49 +0000
Subject: [PATCH 04/26] fix: do not compare values of uncomparable types

---
 src/core/values.go                 | 11 +++++++++++
 src/helena_dialect/strings.go      |  2 +-
 src/picol_dialect/picol_dialect.go |  8 ++++++--
 3 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/core/values.go b/src/core/values.go
index 36b6e07..030ef0b 100644
--- a/src/core/values.go
+++ b/src/core/values.go
@@ -6,6 +6,7 @@ package core
 
 import (
 	"fmt"
+	"reflect"
 	"strconv"
 )
 
@@ -58,6 +59,16 @@ func (t ValueType) String() string {
 	}
 }
 
+// Report whether both values are the same
+//
+// Values of types that cannot be compared (e.g. lists or scripts) are never the
+// same
+func SameValue(value1 Value, value2 Value) bool {
+	return reflect.ValueOf(value1).Comparable() &&
+		reflect.ValueOf(value2).Comparable() &&
+		value1 == value2
+}
+
 // Helena value
 type Value interface {
 	// Type identifier
diff --git a/src/helena_dialect/strings.go b/src/helena_dialect/strings.go
index a21609b..90683c3 100644
--- a/src/helena_dialect/strings.go
+++ b/src/helena_dialect/strings.go
@@ -260,7 +260,7 @@ func (cmd binaryCmd) Execute(args []core.Value, context any) core.Result {
 	if len(args) != 3 {
 		return STRING_OPERATOR_ARITY_ERROR(cmd.name)
 	}
-	if args[1] == args[2] {
+	if core.SameValue(args[1], args[2]) {
 		return core.OK(core.BOOL(cmd.whenEqual))
 	}
 	result1, operand1 := core.ValueToString(args[1])
diff --git a/src/picol_dialect/picol_dialect.go b/src/picol_dialect/picol_dialect.go
index 7b6c833..f8fb860 100644
--- a/src/picol_dialect/picol_dialect.go
+++ b/src/picol_dialect/picol_dialect.go
@@ -186,11 +186,15 @@ func compareValuesCmd(
 
 var eqCmd = compareValuesCmd(
 	"==",
-	func(op1 core.Value, op2 core.Value) bool { return op1 == op2 || asString(op1) == asString(op2) },
+	func(op1 core.Value, op2 core.Value) bool {
+		return core.SameValue(op1, op2) || asString(op1) == asString(op2)
+	},
 )
 var neCmd = compareValuesCmd(
 	"!=",
-	func(op1 core.Value, op2 core.Value) bool { return op1 != op2 && asString(op1) != asString(op2) },
+	func(op1 core.Value, op2 core.Value) bool {
+		return !core.SameValue(op1, op2) && asString(op1) != asString(op2)
+	},
 )
 
 func compareNumbersCmd(
-- 
2.43.0


From dba8a189bf79e491fccec971ad5f515490423852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:11 +0000
Subject: [PATCH 05/26] fix: check the minimal number of arguments of variadic
 list, string, dict and script subcommands

---
 src/helena_dialect/dicts.go   | 6 ++++++
 src/helena_dialect/lists.go   | 3 +++
 src/helena_dialect/scripts.go | 3 +++
 src/helena_dialect/strings.go | 3 +++
 4 files changed, 15 insertions(+)

diff --git a/src/helena_dialect/dicts.go b/src/helena_dialect/dicts.go
index 38e6be4..fb3bfe1 100644
--- a/src/helena_dialect/dicts.go
+++ b/src/helena_dialect/dicts.go
@@ -165,6 +165,9 @@ const DICT_REMOVE_SIGNATURE = "dict value remove ?key ...?"
 type dictRemoveCmd struct{}
 
 func (dictRemoveCmd) Execute(args []core.Value, _ any) core.Result {
+	if len(args) < 2 {
+		return ARITY_ERROR(DICT_REMOVE_SIGNATURE)
+	}
 	if len(args) == 2 {
 		return valueToDictionaryValue(args[1])
 	}
@@ -191,6 +194,9 @@ const DICT_MERGE_SIGNATURE = "dict value merge ?dict ...?"
 type dictMergeCmd struct{}
 
 func (dictMergeCmd) Execute(args []core.Value, _ any) core.Result {
+	if len(args) < 2 {
+		return ARITY_ERROR(DICT_MERGE_SIGNATURE)
+	}
 	if len(args) == 2 {
 		return valueToDictionaryValue(args[1])
 	}
diff --git a/src/helena_dialect/lists.go b/src/helena_dialect/lists.go
index 1ccc8e9..bb467f3 100644
--- a/src/helena_dialect/lists.go
+++ b/src/helena_dialect/lists.go
@@ -123,6 +123,9 @@ const LIST_APPEND_SIGNATURE = "list value append ?list ...?"
 type listAppendCmd struct{}
 
 func (listAppendCmd) Execute(args []core.Value, _ any) core.Result {
+	if len(args) < 2 {
+		return ARITY_ERROR(LIST_APPEND_SIGNATURE)
+	}
 	result, values := ValueToArray(args[1])
 	if result.Code != core.ResultCode_OK {
 		return result
diff --git a/src/helena_dialect/scripts.go b/src/helena_dialect/scripts.go
index 5293c32..2e7d60c 100644
--- a/src/helena_dialect/scripts.go
+++ b/src/helena_dialect/scripts.go
@@ -82,6 +82,9 @@ const SCRIPT_APPEND_SIGNATURE = "script value append ?script ...?"
 type scriptAppendCmd struct{}
 
 func (scriptAppendCmd) Execute(args []core.Value, context any) core.Result {
+	if len(args) < 2 {
+		return ARITY_ERROR(SCRIPT_APPEND_SIGNATURE)
+	}
 	result := valueToScript(args[1])
 	if result.Code != core.ResultCode_OK {
 		return result
diff --git a/src/helena_dialect/strings.go b/src/helena_dialect/strings.go
index 90683c3..ab6f61c 100644
--- a/src/helena_dialect/strings.go
+++ b/src/helena_dialect/strings.go
@@ -120,6 +120,9 @@ const STRING_APPEND_SIGNATURE = "string value append ?string ...?"
 type stringAppendCmd struct{}
 
 func (stringAppendCmd) Execute(args []core.Value, _ any) core.Result {
+	if len(args) < 2 {
+		return ARITY_ERROR(STRING_APPEND_SIGNATURE)
+	}
 	result, str := core.ValueToString(args[1])
 	if result.Code != core.ResultCode_OK {
 		return result
-- 
2.43.0


From b1e48fcaa674d1029809da77ae1dffe1d0eef058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:34 +0000
Subject: [PATCH 06/26] fix: avoid integer overflow on list and string ranges

---
 src/helena_dialect/lists.go   | 6 +++---
 src/helena_dialect/strings.go | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/helena_dialect/lists.go b/src/helena_dialect/lists.go
index bb467f3..aeebf62 100644
--- a/src/helena_dialect/lists.go
+++ b/src/helena_dialect/lists.go
@@ -108,7 +108,7 @@ func (listRangeCmd) Execute(args []core.Value, _ any) core.Result {
 		if first >= length || last < first || last < 0 {
 			return core.OK(core.LIST([]core.Value{}))
 		}
-		return core.OK(core.LIST(values[first:min(last+1, length)]))
+		return core.OK(core.LIST(values[first : min(last, length-1)+1]))
 	}
 }
 func (listRangeCmd) Help(args []core.Value, _ core.CommandHelpOptions, _ any) core.Result {
@@ -167,7 +167,7 @@ func (listRemoveCmd) Execute(args []core.Value, _ any) core.Result {
 		return lastResult
 	}
 	head := values[0:min(first, length)]
-	tail := values[min(max(first, last+1), length):]
+	tail := values[min(max(first, min(last, length-1)+1), length):]
 	newValues := make([]core.Value, 0, len(head)+len(tail))
 	newValues = append(append(newValues, head...), tail...)
 	return core.OK(core.LIST(newValues))
@@ -237,7 +237,7 @@ func (listReplaceCmd) Execute(args []core.Value, _ any) core.Result {
 		return lastResult
 	}
 	head := values[0:min(first, length)]
-	tail := values[min(max(first, last+1), length):]
+	tail := values[min(max(first, min(last, length-1)+1), length):]
 	result2, insert := ValueToArray(args[4])
 	if result2.Code != core.ResultCode_OK {
 		return result2
diff --git a/src/helena_dialect/strings.go b/src/helena_dialect/strings.go
index ab6f61c..9d04177 100644
--- a/src/helena_dialect/strings.go
+++ b/src/helena_dialect/strings.go
@@ -105,7 +105,7 @@ func (stringRangeCmd) Execute(args []core.Value, _ any) core.Result {
 		if first >= length || last < first || last < 0 {
 			return core.OK(core.STR(""))
 		}
-		return core.OK(core.STR(str[first:min(last+1, length)]))
+		return core.OK(core.STR(str[first : min(last, length-1)+1]))
 	}
 }
 func (stringRangeCmd) Help(args []core.Value, _ core.CommandHelpOptions, _ any) core.Result {
@@ -164,7 +164,7 @@ func (stringRemoveCmd) Execute(args []core.Value, _ any) core.Result {
 		return lastResult
 	}
 	head := str[0:min(first, length)]
-	tail := str[min(max(first, last+1), length):]
+	tail := str[min(max(first, min(last, length-1)+1), length):]
 	return core.OK(core.STR(head + tail))
 }
 func (stringRemoveCmd) Help(args []core.Value, _ core.CommandHelpOptions, _ any) core.Result {
@@ -230,7 +230,7 @@ func (stringReplaceCmd) Execute(args []core.Value, _ any) core.Result {
 		return lastResult
 	}
 	head := str[0:min(first, length)]
-	tail := str[min(max(first, last+1), length):]
+	tail := str[min(max(first, min(last, length-1)+1), length):]
 	result2, insert := core.ValueToString(args[4])
 	if result2.Code != core.ResultCode_OK {
 		return result2
-- 
2.43.0


From f99b93c8bc3463632233501e764afb53e7f907f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:15 +0000
Subject: [PATCH 07/26] fix: copy remainder values of argspecs with options

---
 src/helena_dialect/argspecs.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/helena_dialect/argspecs.go b/src/helena_dialect/argspecs.go
index 5cd7a8b..7ffe3a8 100644
--- a/src/helena_dialect/argspecs.go
+++ b/src/helena_dialect/argspecs.go
@@ -192,9 +192,10 @@ func (argspec ArgspecValue) setSlotValues(
 					// No remainder
 					value = core.TUPLE([]core.Value{})
 				} else {
-					value = core.TUPLE(
-						args[slots[slot] : slots[slot]+int(remainders)],
-					)
+					value = core.TUPLE(append(
+						[]core.Value{},
+						args[slots[slot]:slots[slot]+int(remainders)]...,
+					))
 				}
 			}
 		}
-- 
2.43.0


From 6f08a54f5a8dcfeb60cf14b34e42b1e6937ac970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:25 +0000
Subject: [PATCH 08/26] fix: reject malformed argument specifications

---
 src/helena_dialect/arguments.go | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/helena_dialect/arguments.go b/src/helena_dialect/arguments.go
index 44d6ea5..849993a 100644
--- a/src/helena_dialect/arguments.go
+++ b/src/helena_dialect/arguments.go
@@ -93,6 +93,15 @@ func buildArguments(specs core.Value) (core.Result, []Argument) {
 					`argument for flag "` + OptionName(lastOption.Names) + `" must be optional`,
 				), nil
 			}
+			if arg.Type == ArgumentType_REMAINDER {
+				return core.ERROR(
+					`argument for option "` + OptionName(lastOption.Names) + `" cannot be remainder`,
+				), nil
+			}
+			if _, ok := argnames[arg.Name]; ok {
+				return core.ERROR(`duplicate argument "` + arg.Name + `"`), nil
+			}
+			argnames[arg.Name] = struct{}{}
 			arg.Option = lastOption
 			args = append(args, arg)
 			lastOption = nil
@@ -105,7 +114,9 @@ func buildArguments(specs core.Value) (core.Result, []Argument) {
 		if _, ok := argnames[arg.Name]; ok {
 			return core.ERROR(`duplicate argument "` + arg.Name + `"`), nil
 		}
-		hasRemainder = arg.Type == ArgumentType_REMAINDER
+		if arg.Type == ArgumentType_REMAINDER {
+			hasRemainder = true
+		}
 		argnames[arg.Name] = struct{}{}
 		args = append(args, arg)
 	}
@@ -224,13 +235,23 @@ func buildArgument(value core.Value) (core.Result, Argument) {
 						(nameOrDefault == "" || nameOrDefault == "?") {
 						return core.ERROR("empty argument name"), Argument{}
 					}
-					if result1.Code == core.ResultCode_OK && nameOrGuard[0] == '?' {
+					if strings.HasPrefix(nameOrGuard, "?") {
+						if nameOrGuard == "?" {
+							return core.ERROR("empty argument name"), Argument{}
+						}
 						return core.OK(core.NIL), Argument{
 							Name:    nameOrGuard[1:],
 							Type:    ArgumentType_OPTIONAL,
 							Default: specs[1],
 						}
-					} else if nameOrDefault[0] == '?' {
+					}
+					if result2.Code != core.ResultCode_OK {
+						return core.ERROR("invalid argument name"), Argument{}
+					}
+					if nameOrDefault == "" || nameOrDefault == "?" {
+						return core.ERROR("empty argument name"), Argument{}
+					}
+					if nameOrDefault[0] == '?' {
 						return core.OK(core.NIL), Argument{
 							Name:  nameOrDefault[1:],
 							Type:  ArgumentType_OPTIONAL,
-- 
2.43.0


From 7a4e63c6bd212ff39a8e1feb52b1157f6662b4f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:47 +0000
Subject: [PATCH 09/26] fix: report missing values of trailing options

---
 src/helena_dialect/argspecs.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/helena_dialect/argspecs.go b/src/helena_dialect/argspecs.go
index 7ffe3a8..43d2fe1 100644
--- a/src/helena_dialect/argspecs.go
+++ b/src/helena_dialect/argspecs.go
@@ -319,6 +319,11 @@ func (argspec ArgspecValue) findSlots(
 				slots[optionSlot] = i
 				i++
 			case OptionType_OPTION:
+				if i+1 >= len(args) {
+					return core.ERROR(
+						`missing value for option "` + OptionName(arg.Option.Names) + `"`,
+					), findSlotsResult{}
+				}
 				switch arg.Type {
 				case ArgumentType_REQUIRED:
 					nbRequired -= 2
-- 
2.43.0


From 0c62af691f3f68363295901c11590d91bc1044be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:55 +0000
Subject: [PATCH 10/26] fix: do not skip more arguments than available in usage
 strings

---
 src/helena_dialect/arguments.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/helena_dialect/arguments.go b/src/helena_dialect/arguments.go
index 849993a..a8ac0c3 100644
--- a/src/helena_dialect/arguments.go
+++ b/src/helena_dialect/arguments.go
@@ -320,7 +320,7 @@ func buildArgument(value core.Value) (core.Result, Argument) {
 
 func BuildUsage(args []Argument, skip uint) string {
 	result := ""
-	for i, arg := range args[skip:] {
+	for i, arg := range args[min(skip, uint(len(args))):] {
 		if i != 0 {
 			result += " "
 		}
-- 
2.43.0


From f9ddd534698ac30cc4448d42451383bf7fce4f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:48 +0000
Subject: [PATCH 11/26] fix: check catch body and handler types and resume of
 unhandled yields

---
 src/helena_dialect/controls.go | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/helena_dialect/controls.go b/src/helena_dialect/controls.go
index 537d40c..bf49c53 100644
--- a/src/helena_dialect/controls.go
+++ b/src/helena_dialect/controls.go
@@ -622,7 +622,11 @@ func (cmd catchCmd) Execute(args []core.Value, context any) core.Result {
 }
 func (cmd catchCmd) Resume(result core.Result, context any) core.Result {
 	scope := context.(*Scope)
-	state := result.Data.(*catchState)
+	state, ok := result.Data.(*catchState)
+	if !ok {
+		// Unhandled body yield, nothing to resume
+		return core.OK(result.Value)
+	}
 	if state.step == catchStateStep_inBody {
 		state.bodyProcess.YieldBack(result.Value)
 	} else {
@@ -640,8 +644,10 @@ func (cmd catchCmd) run(state *catchState, scope *Scope) core.Result {
 		case catchStateStep_beforeBody:
 			{
 				body := state.args[1]
-				// TODO check type
-				program := scope.CompileScriptValue(body.(core.ScriptValue)) // TODO check type
+				if body.Type() != core.ValueType_SCRIPT {
+					return core.ERROR("body must be a script")
+				}
+				program := scope.CompileScriptValue(body.(core.ScriptValue))
 				state.bodyProcess = scope.PrepareProcess(program)
 				state.step = catchStateStep_inBody
 			}
@@ -669,20 +675,26 @@ func (cmd catchCmd) run(state *catchState, scope *Scope) core.Result {
 					{
 						_, varname := core.ValueToString(state.args[i+1])
 						handler := state.args[i+2]
+						if handler.Type() != core.ValueType_SCRIPT {
+							return core.ERROR("handler must be a script")
+						}
 						subscope := scope.NewLocalScope(
 							map[string]uint{varname: 0},
 							[]core.Value{state.bodyResult.Value},
 						)
 						program := subscope.CompileScriptValue(
 							handler.(core.ScriptValue),
-						) // TODO check type
+						)
 						state.process = subscope.PrepareProcess(program)
 					}
 				case core.ResultCode_BREAK,
 					core.ResultCode_CONTINUE:
 					{
 						handler := state.args[i+1]
-						program := scope.CompileScriptValue(handler.(core.ScriptValue)) // TODO check type
+						if handler.Type() != core.ValueType_SCRIPT {
+							return core.ERROR("handler must be a script")
+						}
+						program := scope.CompileScriptValue(handler.(core.ScriptValue))
 						state.process = scope.PrepareProcess(program)
 					}
 				default:
@@ -717,7 +729,10 @@ func (cmd catchCmd) run(state *catchState, scope *Scope) core.Result {
 					return state.result
 				}
 				handler := state.args[i+1]
-				program := scope.CompileScriptValue(handler.(core.ScriptValue)) // TODO check type
+				if handler.Type() != core.ValueType_SCRIPT {
+					return core.ERROR("handler must be a script")
+				}
+				program := scope.CompileScriptValue(handler.(core.ScriptValue))
 				state.process = scope.PrepareProcess(program)
 				state.step = catchStateStep_inFinally
 			}
-- 
2.43.0


From 80dbe888fbfca82ced23e471e9a92fd59a5ed79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:56 +0000
Subject: [PATCH 12/26] fix: run catch bodies in their own process so that
 continuations are executed

---
 src/helena_dialect/controls.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/helena_dialect/controls.go b/src/helena_dialect/controls.go
index bf49c53..1825b42 100644
--- a/src/helena_dialect/controls.go
+++ b/src/helena_dialect/controls.go
@@ -606,7 +606,8 @@ func (cmd catchCmd) Execute(args []core.Value, context any) core.Result {
 			return core.ERROR("body must be a script")
 		}
 		program := scope.CompileScriptValue(body.(core.ScriptValue))
-		result := scope.Execute(program, nil)
+		process := scope.PrepareProcess(program)
+		result := process.Run()
 		codeName := core.STR(core.RESULT_CODE_NAME(result))
 		switch result.Code {
 		case core.ResultCode_OK,
-- 
2.43.0


From ae362f776fc2070e9d8516086e97d7836333b423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:05 +0000
Subject: [PATCH 13/26] fix: run default argument scripts in their own process
 so that continuations are executed

---
 src/helena_dialect/argspecs.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/helena_dialect/argspecs.go b/src/helena_dialect/argspecs.go
index 43d2fe1..a59adad 100644
--- a/src/helena_dialect/argspecs.go
+++ b/src/helena_dialect/argspecs.go
@@ -170,7 +170,8 @@ func (argspec ArgspecValue) setSlotValues(
 					program := scope.CompileScriptValue(
 						arg.Default.(core.ScriptValue),
 					)
-					result := scope.Execute(program, nil)
+					process := scope.PrepareProcess(program)
+					result := process.Run()
 					switch result.Code {
 					case core.ResultCode_OK:
 						value = result.Value
@@ -382,7 +383,8 @@ func (argspec ArgspecValue) setPositionalSlotValues(
 					program := scope.CompileScriptValue(
 						arg.Default.(core.ScriptValue),
 					)
-					result := scope.Execute(program, nil)
+					process := scope.PrepareProcess(program)
+					result := process.Run()
 					switch result.Code {
 					case core.ResultCode_OK:
 						value = result.Value
-- 
2.43.0


From 75a76ad1445c3c6dd8937f7bd91a3023701680d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:31 +0000
Subject: [PATCH 14/26] fix: end coroutines interrupted by errors or unexpected
 results

---
 src/helena_dialect/coroutines.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/helena_dialect/coroutines.go b/src/helena_dialect/coroutines.go
index 8f6aa2e..937ed66 100644
--- a/src/helena_dialect/coroutines.go
+++ b/src/helena_dialect/coroutines.go
@@ -103,8 +103,10 @@ func (cmd *coroutineCommand) run() core.Result {
 	case core.ResultCode_YIELD:
 		return core.OK(result.Value)
 	case core.ResultCode_ERROR:
+		cmd.state = coroutineState_done
 		return result
 	default:
+		cmd.state = coroutineState_done
 		return core.ERROR("unexpected " + core.RESULT_CODE_NAME(result))
 	}
 }
-- 
2.43.0


From 4f0a120e54965eeb1d0628a3c8b9d8d7c484056c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:40 +0000
Subject: [PATCH 15/26] fix: do not resume running coroutines

---
 src/helena_dialect/coroutines.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/helena_dialect/coroutines.go b/src/helena_dialect/coroutines.go
index 937ed66..122cd2c 100644
--- a/src/helena_dialect/coroutines.go
+++ b/src/helena_dialect/coroutines.go
@@ -16,6 +16,7 @@ type coroutineCommand struct {
 	body    core.ScriptValue
 	state   coroutineState
 	process *Process
+	running bool
 }
 
 func newCoroutineCommand(scope *Scope, body core.ScriptValue) *coroutineCommand {
@@ -54,6 +55,9 @@ func (cmd *coroutineCommand) Execute(args []core.Value, _ any) core.Result {
 		if len(args) != 2 {
 			return ARITY_ERROR("<coroutine> wait")
 		}
+		if cmd.running {
+			return core.ERROR("coroutine is already running")
+		}
 		if cmd.state == coroutineState_inactive {
 			cmd.state = coroutineState_active
 			program := cmd.scope.CompileScriptValue(cmd.body)
@@ -83,6 +87,9 @@ func (cmd *coroutineCommand) Execute(args []core.Value, _ any) core.Result {
 		if cmd.state == coroutineState_done {
 			return core.ERROR("coroutine is done")
 		}
+		if cmd.running {
+			return core.ERROR("coroutine is already running")
+		}
 		if len(args) == 3 {
 			cmd.process.YieldBack(args[2])
 		}
@@ -94,7 +101,9 @@ func (cmd *coroutineCommand) Execute(args []core.Value, _ any) core.Result {
 }
 
 func (cmd *coroutineCommand) run() core.Result {
+	cmd.running = true
 	result := cmd.process.Run()
+	cmd.running = false
 	switch result.Code {
 	case core.ResultCode_OK,
 		core.ResultCode_RETURN:
-- 
2.43.0


From 1b1b59e0bd5e7e599a46f55e45572249bbe9138b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:54 +0000
Subject: [PATCH 16/26] fix: do not use command states after putting them back
 in their pool

---
 src/helena_dialect/controls.go | 29 ++++++++++++++++++-----------
 src/helena_dialect/logic.go    |  6 ++++--
 2 files changed, 22 insertions(+), 13 deletions(-)

diff --git a/src/helena_dialect/controls.go b/src/helena_dialect/controls.go
index 1825b42..a73a3bf 100644
--- a/src/helena_dialect/controls.go
+++ b/src/helena_dialect/controls.go
@@ -145,8 +145,9 @@ func loopCmdNextIteration(state *loopCmdState) core.Result {
 }
 func loopCmdNextSource(state *loopCmdState) core.Result {
 	if state.activeSources == 0 && len(state.sources) > 0 {
+		lastResult := state.lastResult
 		loopCmdStatePool.Put(state)
-		return state.lastResult
+		return lastResult
 	}
 	state.iSource++
 	if state.iSource >= len(state.sources) {
@@ -191,8 +192,9 @@ func loopCmdBody(state *loopCmdState) core.Result {
 		state := data.(*loopCmdState)
 		switch result.Code {
 		case core.ResultCode_BREAK:
+			lastResult := state.lastResult
 			loopCmdStatePool.Put(state)
-			return state.lastResult
+			return lastResult
 		case core.ResultCode_CONTINUE:
 		case core.ResultCode_OK:
 			state.lastResult = result
@@ -266,8 +268,9 @@ func whileCmdLoop(state *whileCmdState) core.Result {
 		state := data.(*whileCmdState)
 		switch result.Code {
 		case core.ResultCode_BREAK:
+			lastResult := state.lastResult
 			whileCmdStatePool.Put(state)
-			return state.lastResult
+			return lastResult
 		case core.ResultCode_CONTINUE:
 		case core.ResultCode_OK:
 			state.lastResult = result
@@ -291,15 +294,17 @@ func whileCmdTest(state *whileCmdState) core.Result {
 			return result2
 		}
 		if !b {
+			lastResult := state.lastResult
 			whileCmdStatePool.Put(state)
-			return state.lastResult
+			return lastResult
 		}
 		return CreateContinuationValueWithCallback(state.scope, state.bodyProgram, state, func(result core.Result, data any) core.Result {
 			state := data.(*whileCmdState)
 			switch result.Code {
 			case core.ResultCode_BREAK:
+				lastResult := state.lastResult
 				whileCmdStatePool.Put(state)
-				return state.lastResult
+				return lastResult
 			case core.ResultCode_CONTINUE:
 			case core.ResultCode_OK:
 				state.lastResult = result
@@ -356,11 +361,12 @@ func ifCmdTest(scope *Scope, args []core.Value, i int) core.Result {
 		state.args = args
 		return CreateContinuationValueWithCallback(scope, program, state, func(result core.Result, data any) core.Result {
 			state := data.(*ifCmdState)
+			scope, args, i := state.scope, state.args, state.i
 			ifCmdStatePool.Put(state)
 			if result.Code != core.ResultCode_OK {
 				return result
 			}
-			return ifCmdNext(result.Value, state.scope, state.args, state.i)
+			return ifCmdNext(result.Value, scope, args, i)
 		})
 	} else {
 		return ifCmdNext(test, scope, args, i)
@@ -550,18 +556,19 @@ func whenCmdTest(command core.Value, state *whenCmdState) core.Result {
 	})
 }
 func whenCmdBody(state *whenCmdState) core.Result {
+	scope, cases, i := state.scope, state.cases, state.i
 	whenCmdStatePool.Put(state)
 	var body core.Value
-	if state.i == len(state.cases)-1 {
-		body = state.cases[state.i]
+	if i == len(cases)-1 {
+		body = cases[i]
 	} else {
-		body = state.cases[state.i+1]
+		body = cases[i+1]
 	}
 	if body.Type() != core.ValueType_SCRIPT {
 		return core.ERROR("body must be a script")
 	}
-	program := state.scope.CompileScriptValue(body.(core.ScriptValue))
-	return CreateContinuationValue(state.scope, program)
+	program := scope.CompileScriptValue(body.(core.ScriptValue))
+	return CreateContinuationValue(scope, program)
 }
 func (whenCmd) Help(args []core.Value, _ core.CommandHelpOptions, _ any) core.Result {
 	if len(args) > 3 {
diff --git a/src/helena_dialect/logic.go b/src/helena_dialect/logic.go
index 260f6a1..4551d56 100644
--- a/src/helena_dialect/logic.go
+++ b/src/helena_dialect/logic.go
@@ -251,11 +251,12 @@ func andCmdCondition(scope *Scope, args []core.Value, i int) core.Result {
 		state.args = args
 		return CreateContinuationValueWithCallback(scope, program, state, func(result core.Result, data any) core.Result {
 			state := data.(*andCmdState)
+			scope, args, i := state.scope, state.args, state.i
 			andCmdStatePool.Put(state)
 			if result.Code != core.ResultCode_OK {
 				return result
 			}
-			return andCmdNext(result.Value, state.scope, state.args, state.i)
+			return andCmdNext(result.Value, scope, args, i)
 		})
 	}
 	// TODO ensure tail call in trampoline, or unroll in caller
@@ -300,11 +301,12 @@ func orCmdCondition(scope *Scope, args []core.Value, i int) core.Result {
 		state.args = args
 		return CreateContinuationValueWithCallback(scope, program, state, func(result core.Result, data any) core.Result {
 			state := data.(*andCmdState)
+			scope, args, i := state.scope, state.args, state.i
 			andCmdStatePool.Put(state)
 			if result.Code != core.ResultCode_OK {
 				return result
 			}
-			return orCmdNext(result.Value, state.scope, state.args, state.i)
+			return orCmdNext(result.Value, scope, args, i)
 		})
 	}
 	// TODO ensure tail call in trampoline, or unroll in caller
-- 
2.43.0


From 9350cb7027b6f1701b1b2f220ccd19d3d045b67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:10 +0000
Subject: [PATCH 17/26] fix: check script arguments of picol commands

---
 src/picol_dialect/picol_dialect.go | 38 +++++++++++++++++++++++-------
 1 file changed, 29 insertions(+), 9 deletions(-)

diff --git a/src/picol_dialect/picol_dialect.go b/src/picol_dialect/picol_dialect.go
index f8fb860..a860e9e 100644
--- a/src/picol_dialect/picol_dialect.go
+++ b/src/picol_dialect/picol_dialect.go
@@ -304,13 +304,17 @@ var ifCmd = makeCommand(
 		if testResult.Code != core.ResultCode_OK {
 			return testResult
 		}
-		var script core.ScriptValue
+		var body core.Value
 		if testResult.Value.(core.BooleanValue).Value {
-			script = args[2].(core.ScriptValue)
+			body = args[2]
 		} else if len(args) == 3 {
 			return EMPTY
 		} else {
-			script = args[4].(core.ScriptValue)
+			body = args[4]
+		}
+		script, ok := body.(core.ScriptValue)
+		if !ok {
+			return core.ERROR("body must be a script")
 		}
 		result := scope.Evaluator.EvaluateScript(script.Script)
 		if result.Code != core.ResultCode_OK {
@@ -329,10 +333,19 @@ var forCmd = makeCommand(
 		if len(args) != 5 {
 			return ARITY_ERROR("for start test next command")
 		}
-		start := args[1].(core.ScriptValue)
+		start, ok := args[1].(core.ScriptValue)
+		if !ok {
+			return core.ERROR("start must be a script")
+		}
 		test := args[2]
-		next := args[3].(core.ScriptValue)
-		script := args[4].(core.ScriptValue)
+		next, ok := args[3].(core.ScriptValue)
+		if !ok {
+			return core.ERROR("next must be a script")
+		}
+		script, ok := args[4].(core.ScriptValue)
+		if !ok {
+			return core.ERROR("body must be a script")
+		}
 		var result core.Result
 		result = scope.Evaluator.EvaluateScript(start.Script)
 		if result.Code != core.ResultCode_OK {
@@ -375,7 +388,10 @@ var whileCmd = makeCommand(
 			return ARITY_ERROR("while test script")
 		}
 		test := args[1]
-		script := args[2].(core.ScriptValue)
+		script, ok := args[2].(core.ScriptValue)
+		if !ok {
+			return core.ERROR("body must be a script")
+		}
 		var result core.Result
 		for {
 			result = evaluateCondition(test, scope)
@@ -623,12 +639,16 @@ var procCmd = makeCommand(
 		if len(args) != 4 {
 			return ARITY_ERROR("proc name args body")
 		}
-		name, _argspecs, body := args[1], args[2], args[3]
+		name, _argspecs := args[1], args[2]
+		body, ok := args[3].(core.ScriptValue)
+		if !ok {
+			return core.ERROR("body must be a script")
+		}
 		result, argspecs := valueToArgspecs(_argspecs)
 		if result.Code != core.ResultCode_OK {
 			return result
 		}
-		scope.Commands[asString(name)] = procCommand{argspecs, body.(core.ScriptValue)}
+		scope.Commands[asString(name)] = procCommand{argspecs, body}
 		return EMPTY
 	},
 )
-- 
2.43.0


From 35c0637106ba682a57aa907bd3bb3101b16ddbff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:12 +0000
Subject: [PATCH 18/26] fix: do not slice past the last argument of picol
 procedures

---
 src/picol_dialect/picol_dialect.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/picol_dialect/picol_dialect.go b/src/picol_dialect/picol_dialect.go
index a860e9e..25ad9ac 100644
--- a/src/picol_dialect/picol_dialect.go
+++ b/src/picol_dialect/picol_dialect.go
@@ -519,7 +519,7 @@ func (proc procCommand) Execute(args []core.Value, context any) core.Result {
 		argspec := proc.argspecs[p]
 		var value core.Value
 		if p == len(proc.argspecs)-1 && argspec.name == "args" {
-			value = core.TUPLE(append([]core.Value{}, args[a:]...))
+			value = core.TUPLE(append([]core.Value{}, args[min(a, len(args)):]...))
 			a = len(args) - 1
 		} else if p < len(args)-1 {
 			value = args[a]
-- 
2.43.0


From efab5d34359c8cd8a24580be6ee56d37bded0a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:15 +0000
Subject: [PATCH 19/26] fix: check number of arguments of picol while

---
 src/picol_dialect/picol_dialect.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/picol_dialect/picol_dialect.go b/src/picol_dialect/picol_dialect.go
index 25ad9ac..993fb1d 100644
--- a/src/picol_dialect/picol_dialect.go
+++ b/src/picol_dialect/picol_dialect.go
@@ -384,7 +384,7 @@ var forCmd = makeCommand(
 var whileCmd = makeCommand(
 	func(args []core.Value, context any) core.Result {
 		scope := context.(*PicolScope)
-		if len(args) != 3 && len(args) != 5 {
+		if len(args) != 3 {
 			return ARITY_ERROR("while test script")
 		}
 		test := args[1]
-- 
2.43.0


From a9c699ebe4921b713319ae36a95ef34cd43d0e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:54 +0000
Subject: [PATCH 20/26] fix: do not look up the position of programs with no
 executed opcode

---
 src/helena_dialect/core.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/helena_dialect/core.go b/src/helena_dialect/core.go
index 550c939..66a21aa 100644
--- a/src/helena_dialect/core.go
+++ b/src/helena_dialect/core.go
@@ -163,7 +163,7 @@ func (process *Process) Run() core.Result {
 				errorStack := result.Data.(*core.ErrorStack)
 				var level core.ErrorStackLevel
 				var frame = append([]core.Value{}, context.state.LastFrame...)
-				if context.program.OpCodePositions != nil {
+				if context.program.OpCodePositions != nil && context.state.PC > 0 {
 					level = core.ErrorStackLevel{
 						Frame:    &frame,
 						Source:   context.program.Source,
-- 
2.43.0


From 8990434ede40e2143970b60573cab0ca2d2e1efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:02 +0000
Subject: [PATCH 21/26] fix: accept the same number of arguments in list, dict
 and string subcommands and in their help

---
 src/helena_dialect/dicts.go   | 2 +-
 src/helena_dialect/lists.go   | 4 ++--
 src/helena_dialect/strings.go | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/helena_dialect/dicts.go b/src/helena_dialect/dicts.go
index fb3bfe1..3e3de94 100644
--- a/src/helena_dialect/dicts.go
+++ b/src/helena_dialect/dicts.go
@@ -381,7 +381,7 @@ func (dictForeachCmd) Execute(args []core.Value, context any) core.Result {
 	return next()
 }
 func (dictForeachCmd) Help(args []core.Value, _ core.CommandHelpOptions, _ any) core.Result {
-	if len(args) > 4 {
+	if len(args) > 5 {
 		return ARITY_ERROR(DICT_FOREACH_SIGNATURE)
 	}
 	return core.OK(core.STR(DICT_FOREACH_SIGNATURE))
diff --git a/src/helena_dialect/lists.go b/src/helena_dialect/lists.go
index aeebf62..8dde142 100644
--- a/src/helena_dialect/lists.go
+++ b/src/helena_dialect/lists.go
@@ -149,7 +149,7 @@ const LIST_REMOVE_SIGNATURE = "list value remove first last"
 type listRemoveCmd struct{}
 
 func (listRemoveCmd) Execute(args []core.Value, _ any) core.Result {
-	if len(args) != 4 && len(args) != 5 {
+	if len(args) != 4 {
 		return ARITY_ERROR(LIST_REMOVE_SIGNATURE)
 	}
 	result, values := ValueToArray(args[1])
@@ -412,7 +412,7 @@ func (listForeachCmd) Execute(args []core.Value, context any) core.Result {
 	return next()
 }
 func (listForeachCmd) Help(args []core.Value, _ core.CommandHelpOptions, _ any) core.Result {
-	if len(args) > 4 {
+	if len(args) > 5 {
 		return ARITY_ERROR(LIST_FOREACH_SIGNATURE)
 	}
 	return core.OK(core.STR(LIST_FOREACH_SIGNATURE))
diff --git a/src/helena_dialect/strings.go b/src/helena_dialect/strings.go
index 9d04177..6598502 100644
--- a/src/helena_dialect/strings.go
+++ b/src/helena_dialect/strings.go
@@ -146,7 +146,7 @@ const STRING_REMOVE_SIGNATURE = "string value remove first last"
 type stringRemoveCmd struct{}
 
 func (stringRemoveCmd) Execute(args []core.Value, _ any) core.Result {
-	if len(args) != 4 && len(args) != 5 {
+	if len(args) != 4 {
 		return ARITY_ERROR(STRING_REMOVE_SIGNATURE)
 	}
 	result, str := core.ValueToString(args[1])
@@ -168,7 +168,7 @@ func (stringRemoveCmd) Execute(args []core.Value, _ any) core.Result {
 	return core.OK(core.STR(head + tail))
 }
 func (stringRemoveCmd) Help(args []core.Value, _ core.CommandHelpOptions, _ any) core.Result {
-	if len(args) > 5 {
+	if len(args) > 4 {
 		return ARITY_ERROR(STRING_REMOVE_SIGNATURE)
 	}
 	return core.OK(core.STR(STRING_REMOVE_SIGNATURE))
-- 
2.43.0


From a10185c4d3964f797f15d2c206cef9b1714b1b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:52 +0000
Subject: [PATCH 22/26] fix: do not set argspec variables partially

---
 src/helena_dialect/core.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/helena_dialect/core.go b/src/helena_dialect/core.go
index 66a21aa..3166a9a 100644
--- a/src/helena_dialect/core.go
+++ b/src/helena_dialect/core.go
@@ -516,11 +516,17 @@ func (scope *Scope) SetNamedVariables(slots map[string]uint, values []core.Value
 		if values[slot] == nil {
 			continue
 		}
-		result := scope.SetNamedVariable(name, values[slot])
+		result := scope.checkNamedVariable(name)
 		if result.Code != core.ResultCode_OK {
 			return result
 		}
 	}
+	for name, slot := range slots {
+		if values[slot] == nil {
+			continue
+		}
+		scope.Context.Variables[name] = values[slot]
+	}
 	return core.OK(core.NIL)
 }
 func (scope *Scope) DestructureVariable(variable core.Value, value core.Value, check bool) core.Result {
-- 
2.43.0


From ec1b1cb16504f097e949b58dd7a0146b7168fd23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:40 +0000
Subject: [PATCH 23/26] fix: report file names, paths and messages with no
 string representation

---
 src/cli/cli.go                | 23 ++++++++++++++++-------
 src/native/go_os/go_os.go     |  5 ++++-
 src/native/go_slog/go_slog.go | 20 ++++++++++++++++----
 3 files changed, 36 insertions(+), 12 deletions(-)

diff --git a/src/cli/cli.go b/src/cli/cli.go
index db60c81..51db192 100644
--- a/src/cli/cli.go
+++ b/src/cli/cli.go
@@ -41,7 +41,10 @@ func (sourceCmd) Execute(args []core.Value, context any) core.Result {
 	if len(args) != 2 {
 		return helena_dialect.ARITY_ERROR("source path")
 	}
-	_, path := core.ValueToString(args[1])
+	result, path := core.ValueToString(args[1])
+	if result.Code != core.ResultCode_OK {
+		return core.ERROR("invalid path")
+	}
 	data, err := os.ReadFile(path)
 	if err != nil {
 		return core.ERROR("error reading file: " + fmt.Sprint(err))
@@ -49,13 +52,13 @@ func (sourceCmd) Execute(args []core.Value, context any) core.Result {
 	input := core.NewStringStreamFromFile(string(data), path)
 	output := core.NewArrayTokenStream([]core.Token{}, input.Source())
 	(&core.Tokenizer{}).TokenizeStream(input, output)
-	result := core.NewParser(&core.ParserOptions{
+	parseResult := core.NewParser(&core.ParserOptions{
 		CapturePositions: true,
 	}).Parse(output)
-	if !result.Success {
-		return core.ERROR(result.Message)
+	if !parseResult.Success {
+		return core.ERROR(parseResult.Message)
 	}
-	program := scope.Compile(*result.Script)
+	program := scope.Compile(*parseResult.Script)
 	return helena_dialect.CreateContinuationValue(scope, program)
 }
 
@@ -90,8 +93,14 @@ func (loadCmd) Execute(args []core.Value, _ any) core.Result {
 	if len(args) != 3 {
 		return helena_dialect.ARITY_ERROR("load path name")
 	}
-	_, path := core.ValueToString(args[1])
-	_, name := core.ValueToString(args[2])
+	result, path := core.ValueToString(args[1])
+	if result.Code != core.ResultCode_OK {
+		return core.ERROR("invalid path")
+	}
+	result, name := core.ValueToString(args[2])
+	if result.Code != core.ResultCode_OK {
+		return core.ERROR("invalid module name")
+	}
 	err := loadNativeModule(path, name)
 	if err == nil {
 		return core.OK(core.NIL)
diff --git a/src/native/go_os/go_os.go b/src/native/go_os/go_os.go
index 03035d9..4485830 100644
--- a/src/native/go_os/go_os.go
+++ b/src/native/go_os/go_os.go
@@ -29,7 +29,10 @@ func (OsCmd) Execute(args []core.Value, _ any) core.Result {
 		if len(args) < 3 {
 			return core.ERROR(`wrong # args: should be "os ReadFile name"`)
 		}
-		name, _ := asString((args[2]))
+		name, ok := asString((args[2]))
+		if !ok {
+			return core.ERROR("invalid file name")
+		}
 		data, err := os.ReadFile(name)
 		if err != nil {
 			return core.ERROR(err.Error())
diff --git a/src/native/go_slog/go_slog.go b/src/native/go_slog/go_slog.go
index 263251d..35d6294 100644
--- a/src/native/go_slog/go_slog.go
+++ b/src/native/go_slog/go_slog.go
@@ -29,25 +29,37 @@ func (SlogCmd) Execute(args []core.Value, _ any) core.Result {
 		if len(args) < 3 {
 			return core.ERROR(`wrong # args: should be "slog Debug msg"`)
 		}
-		msg, _ := asString((args[2]))
+		msg, ok := asString((args[2]))
+		if !ok {
+			return core.ERROR("invalid message")
+		}
 		slog.Debug(msg)
 	case "Error":
 		if len(args) < 3 {
 			return core.ERROR(`wrong # args: should be "slog Error msg"`)
 		}
-		msg, _ := asString((args[2]))
+		msg, ok := asString((args[2]))
+		if !ok {
+			return core.ERROR("invalid message")
+		}
 		slog.Error(msg, "toto", 1)
 	case "Info":
 		if len(args) < 3 {
 			return core.ERROR(`wrong # args: should be "slog Info msg"`)
 		}
-		msg, _ := asString((args[2]))
+		msg, ok := asString((args[2]))
+		if !ok {
+			return core.ERROR("invalid message")
+		}
 		slog.Info(msg)
 	case "Warn":
 		if len(args) < 3 {
 			return core.ERROR(`wrong # args: should be "slog Warn msg"`)
 		}
-		msg, _ := asString((args[2]))
+		msg, ok := asString((args[2]))
+		if !ok {
+			return core.ERROR("invalid message")
+		}
 		slog.Warn(msg)
 	}
 	return core.OK(core.NIL)
-- 
2.43.0


From 786e4b4f7698b81d0ec9ddcd8881dd644a162c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:41 +0000
Subject: [PATCH 24/26] fix: report unsupported slog methods

---
 src/native/go_slog/go_slog.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/native/go_slog/go_slog.go b/src/native/go_slog/go_slog.go
index 35d6294..6434cbc 100644
--- a/src/native/go_slog/go_slog.go
+++ b/src/native/go_slog/go_slog.go
@@ -61,6 +61,8 @@ func (SlogCmd) Execute(args []core.Value, _ any) core.Result {
 			return core.ERROR("invalid message")
 		}
 		slog.Warn(msg)
+	default:
+		return core.ERROR("unsupported method " + method)
 	}
 	return core.OK(core.NIL)
 }
-- 
2.43.0


From d22d41f5b0c8a57285d98fbd75c191ab65dc94e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:44 +0000
Subject: [PATCH 25/26] fix: do not keep argument frames reused by the caller

---
 src/helena_dialect/controls.go | 7 +++++--
 src/helena_dialect/logic.go    | 4 ++--
 src/helena_dialect/scopes.go   | 3 ++-
 3 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/helena_dialect/controls.go b/src/helena_dialect/controls.go
index a73a3bf..bf02420 100644
--- a/src/helena_dialect/controls.go
+++ b/src/helena_dialect/controls.go
@@ -358,7 +358,7 @@ func ifCmdTest(scope *Scope, args []core.Value, i int) core.Result {
 		state := ifCmdStatePool.Get().(*ifCmdState)
 		state.scope = scope
 		state.i = i
-		state.args = args
+		state.args = append([]core.Value{}, args...) // The caller owns its frame
 		return CreateContinuationValueWithCallback(scope, program, state, func(result core.Result, data any) core.Result {
 			state := data.(*ifCmdState)
 			scope, args, i := state.scope, state.args, state.i
@@ -626,7 +626,10 @@ func (cmd catchCmd) Execute(args []core.Value, context any) core.Result {
 			return core.OK(core.TUPLE([]core.Value{core.STR(core.RESULT_CODE_NAME(result))}))
 		}
 	}
-	return cmd.run(&catchState{step: catchStateStep_beforeBody, args: args}, scope)
+	return cmd.run(&catchState{
+		step: catchStateStep_beforeBody,
+		args: append([]core.Value{}, args...), // The caller owns its frame
+	}, scope)
 }
 func (cmd catchCmd) Resume(result core.Result, context any) core.Result {
 	scope := context.(*Scope)
diff --git a/src/helena_dialect/logic.go b/src/helena_dialect/logic.go
index 4551d56..8d5818a 100644
--- a/src/helena_dialect/logic.go
+++ b/src/helena_dialect/logic.go
@@ -248,7 +248,7 @@ func andCmdCondition(scope *Scope, args []core.Value, i int) core.Result {
 		state := andCmdStatePool.Get().(*andCmdState)
 		state.scope = scope
 		state.i = i
-		state.args = args
+		state.args = append([]core.Value{}, args...) // The caller owns its frame
 		return CreateContinuationValueWithCallback(scope, program, state, func(result core.Result, data any) core.Result {
 			state := data.(*andCmdState)
 			scope, args, i := state.scope, state.args, state.i
@@ -298,7 +298,7 @@ func orCmdCondition(scope *Scope, args []core.Value, i int) core.Result {
 		state := andCmdStatePool.Get().(*andCmdState)
 		state.scope = scope
 		state.i = i
-		state.args = args
+		state.args = append([]core.Value{}, args...) // The caller owns its frame
 		return CreateContinuationValueWithCallback(scope, program, state, func(result core.Result, data any) core.Result {
 			state := data.(*andCmdState)
 			scope, args, i := state.scope, state.args, state.i
diff --git a/src/helena_dialect/scopes.go b/src/helena_dialect/scopes.go
index 41a74ed..3472af5 100644
--- a/src/helena_dialect/scopes.go
+++ b/src/helena_dialect/scopes.go
@@ -71,7 +71,8 @@ func (scope *scopeCommand) Execute(args []core.Value, _ any) core.Result {
 		if scope.scope.ResolveLocalCommand(command) == nil {
 			return core.ERROR(`unknown command "` + command + `"`)
 		}
-		program := scope.scope.CompileArgs(args[2:])
+		cmdline := append([]core.Value{}, args[2:]...) // The caller owns its frame
+		program := scope.scope.CompileArgs(cmdline)
 		return CreateContinuationValue(scope.scope, program)
 
 	default:
-- 
2.43.0


From 8aeba1626d291f552f601f46311f7ea70efa7b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:56 +0000
Subject: [PATCH 26/26] fix: go_os and go_slog methods reject extra arguments,
 as their usage says

---
 src/native/go_os/go_os.go     | 2 +-
 src/native/go_slog/go_slog.go | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/native/go_os/go_os.go b/src/native/go_os/go_os.go
index 4485830..f5dd133 100644
--- a/src/native/go_os/go_os.go
+++ b/src/native/go_os/go_os.go
@@ -26,7 +26,7 @@ func (OsCmd) Execute(args []core.Value, _ any) core.Result {
 	// https://pkg.go.dev/os
 	switch method {
 	case "ReadFile":
-		if len(args) < 3 {
+		if len(args) != 3 {
 			return core.ERROR(`wrong # args: should be "os ReadFile name"`)
 		}
 		name, ok := asString((args[2]))
diff --git a/src/native/go_slog/go_slog.go b/src/native/go_slog/go_slog.go
index 6434cbc..277ce64 100644
--- a/src/native/go_slog/go_slog.go
+++ b/src/native/go_slog/go_slog.go
@@ -26,7 +26,7 @@ func (SlogCmd) Execute(args []core.Value, _ any) core.Result {
 	// TODO Attrs and Values https://pkg.go.dev/log/slog@go1.22.2#hdr-Attrs_and_Values
 	switch method {
 	case "Debug":
-		if len(args) < 3 {
+		if len(args) != 3 {
 			return core.ERROR(`wrong # args: should be "slog Debug msg"`)
 		}
 		msg, ok := asString((args[2]))
@@ -35,7 +35,7 @@ func (SlogCmd) Execute(args []core.Value, _ any) core.Result {
 		}
 		slog.Debug(msg)
 	case "Error":
-		if len(args) < 3 {
+		if len(args) != 3 {
 			return core.ERROR(`wrong # args: should be "slog Error msg"`)
 		}
 		msg, ok := asString((args[2]))
@@ -44,7 +44,7 @@ func (SlogCmd) Execute(args []core.Value, _ any) core.Result {
 		}
 		slog.Error(msg, "toto", 1)
 	case "Info":
-		if len(args) < 3 {
+		if len(args) != 3 {
 			return core.ERROR(`wrong # args: should be "slog Info msg"`)
 		}
 		msg, ok := asString((args[2]))
@@ -53,7 +53,7 @@ func (SlogCmd) Execute(args []core.Value, _ any) core.Result {
 		}
 		slog.Info(msg)
 	case "Warn":
-		if len(args) < 3 {
+		if len(args) != 3 {
 			return core.ERROR(`wrong # args: should be "slog Warn msg"`)
 		}
 		msg, ok := asString((args[2]))
-- 
2.43.0

