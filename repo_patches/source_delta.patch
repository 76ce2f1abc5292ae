From c3f5dd3fa1075c2195da895b310d7f93f1de715f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:15 +0000
Subject: [PATCH 01/59] fix: set byte offset of characters on continuation
 lines

Positions of nodes on a line-continuation line ("  \ foo") had Offset 0.
Count the newline before the continuation line and store the offset.
---
 go/type.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/go/type.go b/go/type.go
index e34d543..ddaaabf 100644
--- a/go/type.go
+++ b/go/type.go
@@ -207,6 +207,7 @@ func (self *StringReader) __init__(lines []string) {
 		for lnum+1 < len(lines) && viml_eqregh(lines[lnum+1], "^\\s*\\\\") {
 			var skip = true
 			col = 0
+			offset += 1
 			for _, r := range lines[lnum+1] {
 				c := string(r)
 				if skip {
@@ -215,13 +216,12 @@ func (self *StringReader) __init__(lines []string) {
 					}
 				} else {
 					self.buf = append(self.buf, c)
-					self.pos = append(self.pos, pos{lnum: lnum + 2, col: col + 1})
+					self.pos = append(self.pos, pos{lnum: lnum + 2, col: col + 1, offset: offset})
 				}
 				col += len(c)
 				offset += len(c)
 			}
 			lnum += 1
-			offset += 1
 		}
 		self.buf = append(self.buf, "<EOL>")
 		self.pos = append(self.pos, pos{lnum: lnum + 1, col: col + 1, offset: offset})
-- 
2.43.0


From cced7949368b8f2f03d3ea98d490a060e450badb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:16 +0000
Subject: [PATCH 02/59] fix: report the byte offset in ParseError

Err used the index in the reader's character buffer as Offset, which
differs from the byte offset after a multibyte character or a line
continuation; ast.Pos.Offset is a byte offset.
---
 go/type.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/go/type.go b/go/type.go
index ddaaabf..cbaf4db 100644
--- a/go/type.go
+++ b/go/type.go
@@ -333,5 +333,5 @@ func (e *ParseError) Error() string {
 }
 
 func Err(msg string, pos *pos) *ParseError {
-	return &ParseError{Offset: pos.i, Line: pos.lnum, Column: pos.col, Msg: msg}
+	return &ParseError{Offset: pos.offset, Line: pos.lnum, Column: pos.col, Msg: msg}
 }
-- 
2.43.0


From 65a28670a7972b6681872871ca087bf9e73f2456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:37 +0000
Subject: [PATCH 03/59] fix: do not take the register of :@" and :*" for a
 comment

separate_nextcmd compared *pos pointers, which always differ, so that the
test for a double quote at the argument never succeeded in the Go parser.
---
 autoload/vimlparser.vim | 2 +-
 go/vimlparser.go        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/autoload/vimlparser.vim b/autoload/vimlparser.vim
index a7ae041..c6f71ee 100644
--- a/autoload/vimlparser.vim
+++ b/autoload/vimlparser.vim
@@ -1170,7 +1170,7 @@ function! s:VimLParser.separate_nextcmd() abort
     elseif c ==# '|' || c ==# "\n" ||
           \ (c ==# '"' && self.ea.cmd.flags !~# '\<NOTRLCOM\>'
           \   && ((self.ea.cmd.name !=# '@' && self.ea.cmd.name !=# '*')
-          \       || self.reader.getpos() !=# self.ea.argpos)
+          \       || self.reader.getpos().i !=# self.ea.argpos.i)
           \   && (self.ea.cmd.name !=# 'redir'
           \       || self.reader.getpos().i !=# self.ea.argpos.i + 1 || pc !=# '@'))
       let has_cpo_bar = s:FALSE " &cpoptions =~ 'b'
diff --git a/go/vimlparser.go b/go/vimlparser.go
index d642d7a..b0b240e 100644
--- a/go/vimlparser.go
+++ b/go/vimlparser.go
@@ -1043,7 +1043,7 @@ func (self *VimLParser) separate_nextcmd() *pos {
 				panic(Err(viml_printf("unexpected character: %s", c), self.reader.getpos()))
 			}
 			self.reader.getn(1)
-		} else if c == "|" || c == "\n" || (c == "\"" && !viml_eqregh(self.ea.cmd.flags, "\\<NOTRLCOM\\>") && ((self.ea.cmd.name != "@" && self.ea.cmd.name != "*") || self.reader.getpos() != self.ea.argpos) && (self.ea.cmd.name != "redir" || self.reader.getpos().i != self.ea.argpos.i+1 || pc != "@")) {
+		} else if c == "|" || c == "\n" || (c == "\"" && !viml_eqregh(self.ea.cmd.flags, "\\<NOTRLCOM\\>") && ((self.ea.cmd.name != "@" && self.ea.cmd.name != "*") || self.reader.getpos().i != self.ea.argpos.i) && (self.ea.cmd.name != "redir" || self.reader.getpos().i != self.ea.argpos.i+1 || pc != "@")) {
 			var has_cpo_bar = false
 			// &cpoptions =~ 'b'
 			if (!has_cpo_bar || !viml_eqregh(self.ea.cmd.flags, "\\<USECTRLV\\>")) && pc == "\\" {
-- 
2.43.0


From ab06cd2c3974dbcac3b26729d26e7d3f856e35f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:37 +0000
Subject: [PATCH 04/59] fix: position of a literal dictionary key

The position of the key in #{key: 1} was that of its second character.
---
 autoload/vimlparser.vim | 2 +-
 go/vimlparser.go        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/autoload/vimlparser.vim b/autoload/vimlparser.vim
index c6f71ee..75e947b 100644
--- a/autoload/vimlparser.vim
+++ b/autoload/vimlparser.vim
@@ -3602,8 +3602,8 @@ function! s:ExprTokenizer.parse_dict_literal_key() abort
   endif
   let node = s:Node(s:NODE_STRING)
   let s = c
-  call self.reader.seek_cur(1)
   let node.pos = self.reader.getpos()
+  call self.reader.seek_cur(1)
   while s:TRUE
     let c = self.reader.p(0)
     if c ==# '<EOF>' || c ==# '<EOL>'
diff --git a/go/vimlparser.go b/go/vimlparser.go
index b0b240e..c1318b0 100644
--- a/go/vimlparser.go
+++ b/go/vimlparser.go
@@ -2341,8 +2341,8 @@ func (self *ExprTokenizer) parse_dict_literal_key() *VimNode {
 	}
 	var node = Node(NODE_STRING)
 	var s = c
-	self.reader.seek_cur(1)
 	node.pos = self.reader.getpos()
+	self.reader.seek_cur(1)
 	for true {
 		c = self.reader.p(0)
 		if c == "<EOF>" || c == "<EOL>" {
-- 
2.43.0


From 763654e279982194f986fd20ceec9c47947f5f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:04 +0000
Subject: [PATCH 05/59] fix: position of HeredocExpr

HeredocExpr.OpPos is documented as the position of "=<<" but was that
of the :let command.
---
 autoload/vimlparser.vim | 2 ++
 go/vimlparser.go        | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/autoload/vimlparser.vim b/autoload/vimlparser.vim
index 75e947b..042972a 100644
--- a/autoload/vimlparser.vim
+++ b/autoload/vimlparser.vim
@@ -1596,10 +1596,12 @@ function! s:VimLParser.parse_cmd_let() abort
     call self.reader.getn(len(s2))
     let node.op = s2
   elseif s2 ==# '=<<'
+    let oppos = self.reader.getpos()
     call self.reader.getn(len(s2))
     call self.reader.skip_white()
     let node.op = s2
     let node.right = self.parse_heredoc()
+    let node.right.pos = oppos
     call self.add_node(node)
     return
   elseif s1 ==# '='
diff --git a/go/vimlparser.go b/go/vimlparser.go
index c1318b0..179f534 100644
--- a/go/vimlparser.go
+++ b/go/vimlparser.go
@@ -1453,10 +1453,12 @@ func (self *VimLParser) parse_cmd_let() {
 		self.reader.getn(len(s2))
 		node.op = s2
 	} else if s2 == "=<<" {
+		var oppos = self.reader.getpos()
 		self.reader.getn(len(s2))
 		self.reader.skip_white()
 		node.op = s2
 		node.right = self.parse_heredoc()
+		node.right.pos = oppos
 		self.add_node(node)
 		return
 	} else if s1 == "=" {
-- 
2.43.0


From 8772557dddeed95a961b20ccdc03a9fb9b03ee7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:04 +0000
Subject: [PATCH 06/59] fix: do not panic on a large count

A count of :lockvar, :tab or :verbose over 2147483647 made ParseFile
fail with an internal error of strconv.
---
 go/vimlfunc.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/go/vimlfunc.go b/go/vimlfunc.go
index 8896232..b4c1d54 100644
--- a/go/vimlfunc.go
+++ b/go/vimlfunc.go
@@ -1,6 +1,7 @@
 package vimlparser
 
 import (
+	"errors"
 	"fmt"
 	"reflect"
 	"regexp"
@@ -139,11 +140,11 @@ func viml_split(s string, sep string) []string {
 }
 
 func viml_str2nr(s string, base int) int {
-	r, err := strconv.ParseInt(s, base, 32)
-	if err != nil {
+	r, err := strconv.ParseInt(s, base, strconv.IntSize)
+	if err != nil && !errors.Is(err, strconv.ErrRange) {
 		panic(fmt.Errorf("viml_str2nr: %v", err))
 	}
-	return int(r)
+	return int(r) // the nearest int on overflow, like str2nr() of Vim
 }
 
 func viml_string(obj interface{}) string {
-- 
2.43.0


From dbff57383f4bc7c4e2310205dc93065ab802314f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:24 +0000
Subject: [PATCH 07/59] fix: walk default arguments and the body of a lambda

ast.Walk and ast.Inspect visited neither Function.DefaultArgs nor
LambdaExpr.Expr.
---
 ast/walk.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ast/walk.go b/ast/walk.go
index 41587bf..ac9c30e 100644
--- a/ast/walk.go
+++ b/ast/walk.go
@@ -40,6 +40,7 @@ func Walk(v Visitor, node Node) {
 	case *Function:
 		Walk(v, n.Name)
 		walkIdentList(v, n.Params)
+		walkExprList(v, n.DefaultArgs)
 		walkStmtList(v, n.Body)
 		Walk(v, n.EndFunction)
 
@@ -205,6 +206,7 @@ func Walk(v Visitor, node Node) {
 
 	case *LambdaExpr:
 		walkIdentList(v, n.Params)
+		Walk(v, n.Expr)
 
 	case *ParenExpr:
 		Walk(v, n.X)
-- 
2.43.0


From 2e40a048d695847075b98cf0ae1cb03ebd0e3bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:24 +0000
Subject: [PATCH 08/59] fix: do not use the text of an expression as a format
 string

Compiling an expression containing "%" wrote %!x(MISSING).
---
 compiler/compiler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/compiler.go b/compiler/compiler.go
index b0412ac..921faab 100644
--- a/compiler/compiler.go
+++ b/compiler/compiler.go
@@ -78,7 +78,7 @@ func (c *Compiler) compile(node interface{}) error {
 			}
 		}
 	case ast.Expr:
-		c.fprint(c.compileExpr(n))
+		c.fprint("%s", c.compileExpr(n))
 	}
 	return nil
 }
-- 
2.43.0


From f4d70d816ee10e6313e86ed98c1dac448e6f5a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:24 +0000
Subject: [PATCH 09/59] fix: do not indent inside the line of a nested function

The parameters and the closing parenthesis of a :function within another
block were preceded by the indentation of the block.
---
 compiler/compiler.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/compiler/compiler.go b/compiler/compiler.go
index 921faab..c682b2f 100644
--- a/compiler/compiler.go
+++ b/compiler/compiler.go
@@ -151,7 +151,7 @@ func (c *Compiler) compileExcmd(node *ast.Excmd) {
 func (c *Compiler) compileFunction(node *ast.Function) {
 	c.fprint("(function (%s", c.compileExpr(node.Name))
 	if len(node.Params) > 0 {
-		c.fprint(" ")
+		c.writeString(" ")
 		ps := make([]string, 0, len(node.Params))
 		var remaining bool
 		if node.Params[len(node.Params)-1].Name == token.DOTDOTDOT.String() {
@@ -169,9 +169,9 @@ func (c *Compiler) compileFunction(node *ast.Function) {
 		if remaining {
 			ps = append(ps, ". ...")
 		}
-		c.fprint("%s", strings.Join(ps, " "))
+		c.writeString(strings.Join(ps, " "))
 	}
-	c.fprintln(")")
+	c.writeString(")\n")
 	c.indent++
 	c.compile(node.Body)
 	c.trimLineBreak()
-- 
2.43.0


From 968d17439d59b7e3113efe9d4d974ef8b66ba3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:24 +0000
Subject: [PATCH 10/59] fix: do not modify the AST in Compile

Compiling a function with "..." removed it from Function.Params, so that
the next Compile of the same node lost it.
---
 compiler/compiler.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/compiler/compiler.go b/compiler/compiler.go
index c682b2f..b00e928 100644
--- a/compiler/compiler.go
+++ b/compiler/compiler.go
@@ -152,18 +152,19 @@ func (c *Compiler) compileFunction(node *ast.Function) {
 	c.fprint("(function (%s", c.compileExpr(node.Name))
 	if len(node.Params) > 0 {
 		c.writeString(" ")
+		params := node.Params
 		ps := make([]string, 0, len(node.Params))
 		var remaining bool
 		if node.Params[len(node.Params)-1].Name == token.DOTDOTDOT.String() {
-			node.Params = node.Params[:len(node.Params)-1]
+			params = params[:len(params)-1]
 			remaining = true
 		}
-		for i, p := range node.Params {
-			if i < len(node.Params)-len(node.DefaultArgs) {
+		for i, p := range params {
+			if i < len(params)-len(node.DefaultArgs) {
 				ps = append(ps, p.Name)
 			} else {
 				ps = append(ps, fmt.Sprintf("(%s %s)", p.Name,
-					c.compileExpr(node.DefaultArgs[i+len(node.DefaultArgs)-len(node.Params)])))
+					c.compileExpr(node.DefaultArgs[i+len(node.DefaultArgs)-len(params)])))
 			}
 		}
 		if remaining {
-- 
2.43.0


From 2e21e60061620a0f9c1f6cb2bda3d88d06645019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:54 +0000
Subject: [PATCH 11/59] fix: keep bytes which are not valid UTF-8

Iterating over the runes of a line replaced each byte of a script which is
not in UTF-8 with U+FFFD, three bytes: text of nodes was lost, and columns
and offsets after it were wrong.
---
 compiler/compiler.go | 15 ++++++++-------
 go/type.go           |  6 ++----
 go/vimlfunc.go       | 27 ++++++++++++++++++---------
 3 files changed, 28 insertions(+), 20 deletions(-)

diff --git a/compiler/compiler.go b/compiler/compiler.go
index b00e928..a2b2a08 100644
--- a/compiler/compiler.go
+++ b/compiler/compiler.go
@@ -495,20 +495,21 @@ func (c *Compiler) compileExpr(node ast.Expr) string {
 
 func escape(s string, chars string) string {
 	r := ""
-	for _, c := range s {
-		if strings.IndexRune(chars, c) != -1 {
+	for i := 0; i < len(s); i++ { // chars are ASCII
+		c := s[i : i+1]
+		if strings.Contains(chars, c) {
 			switch c {
-			case '\n':
+			case "\n":
 				r += `\n`
-			case '\t':
+			case "\t":
 				r += `\t`
-			case '\r':
+			case "\r":
 				r += `\r`
 			default:
-				r += `\` + string(c)
+				r += `\` + c
 			}
 		} else {
-			r += string(c)
+			r += c
 		}
 	}
 	return r
diff --git a/go/type.go b/go/type.go
index cbaf4db..caecd6a 100644
--- a/go/type.go
+++ b/go/type.go
@@ -197,8 +197,7 @@ func (self *StringReader) __init__(lines []string) {
 	var offset = 0
 	for lnum < len(lines) {
 		var col = 0
-		for _, r := range lines[lnum] {
-			c := string(r)
+		for _, c := range splitChars(lines[lnum]) {
 			self.buf = append(self.buf, c)
 			self.pos = append(self.pos, pos{lnum: lnum + 1, col: col + 1, offset: offset})
 			col += len(c)
@@ -208,8 +207,7 @@ func (self *StringReader) __init__(lines []string) {
 			var skip = true
 			col = 0
 			offset += 1
-			for _, r := range lines[lnum+1] {
-				c := string(r)
+			for _, c := range splitChars(lines[lnum+1]) {
 				if skip {
 					if c == "\\" {
 						skip = false
diff --git a/go/vimlfunc.go b/go/vimlfunc.go
index b4c1d54..281f9d3 100644
--- a/go/vimlfunc.go
+++ b/go/vimlfunc.go
@@ -7,6 +7,7 @@ import (
 	"regexp"
 	"strconv"
 	"strings"
+	"unicode/utf8"
 )
 
 // copied and little modified(^++) from ./py/vimlfunc.py
@@ -97,11 +98,11 @@ func viml_eqregh(s, reg string) bool {
 
 func viml_escape(s string, chars string) string {
 	r := ""
-	for _, c := range s {
-		if strings.IndexRune(chars, c) != -1 {
-			r += `\` + string(c)
+	for _, c := range splitChars(s) {
+		if strings.Contains(chars, c) {
+			r += `\` + c
 		} else {
-			r += string(c)
+			r += c
 		}
 	}
 	return r
@@ -130,15 +131,23 @@ func viml_range(start, end int) []int {
 
 func viml_split(s string, sep string) []string {
 	if sep == `\zs` {
-		ss := make([]string, 0, len(s))
-		for _, r := range s {
-			ss = append(ss, string(r))
-		}
-		return ss
+		return splitChars(s)
 	}
 	panic("NotImplemented viml_split")
 }
 
+// splitChars splits s into characters. A byte which is not a part of valid
+// UTF-8 is kept as it is.
+func splitChars(s string) []string {
+	cs := make([]string, 0, len(s))
+	for len(s) > 0 {
+		_, n := utf8.DecodeRuneInString(s)
+		cs = append(cs, s[:n])
+		s = s[n:]
+	}
+	return cs
+}
+
 func viml_str2nr(s string, base int) int {
 	r, err := strconv.ParseInt(s, base, strconv.IntSize)
 	if err != nil && !errors.Is(err, strconv.ErrRange) {
-- 
2.43.0


From bc0274f2474b8907bbf82863b8a5afa537b3a31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:26 +0000
Subject: [PATCH 12/59] fix: only a space or a tab may precede the backslash of
 a line continuation

\s of Vim's regexps does not match a form feed or a carriage return.
---
 go/vimlfunc.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/go/vimlfunc.go b/go/vimlfunc.go
index 281f9d3..5b28f9d 100644
--- a/go/vimlfunc.go
+++ b/go/vimlfunc.go
@@ -51,7 +51,7 @@ var patVim2Go = map[string]string{
 	"^\\d":                     "^\\d",
 	"^\\h":                     "^[A-Za-z_]",
 	"^\\s":                     "^\\s",
-	"^\\s*\\\\":                "^\\s*\\\\",
+	"^\\s*\\\\":                "^[ \\t]*\\\\",
 	"^[ \\t]$":                 "^[ \\t]$",
 	"^[A-Za-z]$":               "^[A-Za-z]$",
 	"^[0-9A-Za-z]$":            "^[0-9A-Za-z]$",
-- 
2.43.0


From 7154ce5f8d95abdc3f11034c6e0f7091dbdf488f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:28 +0000
Subject: [PATCH 13/59] fix: do not ignore the rest of the input after a read
 error

ParseFile and ParseExpr took the lines before a read error, or before a
line of over 64 KiB, for the whole script and reported success.
---
 vimlparser.go | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/vimlparser.go b/vimlparser.go
index 9f5a97c..d20ec65 100644
--- a/vimlparser.go
+++ b/vimlparser.go
@@ -4,6 +4,7 @@ import (
 	"bufio"
 	"fmt"
 	"io"
+	"strings"
 
 	"github.com/vim-jp/go-vimlparser/ast"
 	internal "github.com/vim-jp/go-vimlparser/go"
@@ -50,7 +51,10 @@ func ParseFile(r io.Reader, filename string, opt *ParseOption) (node *ast.File,
 			// log.Printf("%s", debug.Stack())
 		}
 	}()
-	lines := readlines(r)
+	lines, err := readlines(r)
+	if err != nil {
+		return nil, err
+	}
 	reader := internal.NewStringReader(lines)
 	neovim := false
 	if opt != nil {
@@ -78,18 +82,30 @@ func ParseExpr(r io.Reader) (node ast.Expr, err error) {
 			// log.Printf("%s", debug.Stack())
 		}
 	}()
-	lines := readlines(r)
+	lines, err := readlines(r)
+	if err != nil {
+		return nil, err
+	}
 	reader := internal.NewStringReader(lines)
 	p := internal.NewExprParser(reader)
 	node = p.Parse()
 	return
 }
 
-func readlines(r io.Reader) []string {
+func readlines(r io.Reader) ([]string, error) {
 	lines := []string{}
-	scanner := bufio.NewScanner(r)
-	for scanner.Scan() {
-		lines = append(lines, scanner.Text())
+	reader := bufio.NewReader(r)
+	for {
+		line, err := reader.ReadString('\n')
+		if err != nil && err != io.EOF {
+			return nil, err
+		}
+		if line != "" {
+			line = strings.TrimSuffix(line, "\n")
+			lines = append(lines, strings.TrimSuffix(line, "\r"))
+		}
+		if err == io.EOF {
+			return lines, nil
+		}
 	}
-	return lines
 }
-- 
2.43.0


From c43bd824eee9c13bab706bea80aa0a34a501b143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:28 +0000
Subject: [PATCH 14/59] fix: print =~ and =~?

printer.Fprint panicked since the precedence of the two was missing.
---
 printer/opprec.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/printer/opprec.go b/printer/opprec.go
index e1ca348..b8d42ee 100644
--- a/printer/opprec.go
+++ b/printer/opprec.go
@@ -36,6 +36,8 @@ func opprec(op ast.Expr) int {
 			token.LTEQ,
 			token.LTEQCI,
 			token.LTEQCS,
+			token.MATCH,
+			token.MATCHCI,
 			token.MATCHCS,
 			token.NOMATCH,
 			token.NOMATCHCI,
-- 
2.43.0


From f2fa5bf49502d13fadc3c87803f5c0dc49ccf8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:28 +0000
Subject: [PATCH 15/59] fix: parenthesize a comparison on the left of a
 comparison

The printer wrote "a == b == c" for a manually created AST of
(a == b) == c, which does not parse: comparisons are not associative.
---
 printer/expr.go   | 7 ++++++-
 printer/opprec.go | 5 ++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/printer/expr.go b/printer/expr.go
index 44467c4..63e2e60 100644
--- a/printer/expr.go
+++ b/printer/expr.go
@@ -61,7 +61,12 @@ func (p *printer) binaryExpr(x *ast.BinaryExpr, prec1 int) {
 		return
 	}
 	// TODO(haya14busa): handle line break.
-	p.expr1(x.Left, prec)
+	if prec == opprecCmp {
+		// A comparison is not associative.
+		p.expr1(x.Left, prec+1)
+	} else {
+		p.expr1(x.Left, prec)
+	}
 	p.printWhite(blank)
 	p.token(x.Op)
 	p.printWhite(blank)
diff --git a/printer/opprec.go b/printer/opprec.go
index b8d42ee..47c8ec6 100644
--- a/printer/opprec.go
+++ b/printer/opprec.go
@@ -7,6 +7,9 @@ import (
 	"github.com/vim-jp/go-vimlparser/token"
 )
 
+// opprecCmp is the precedence of comparison operators.
+const opprecCmp = 4
+
 // opprec returns operator precedence. See also go/gocompiler.vim
 func opprec(op ast.Expr) int {
 	switch n := op.(type) {
@@ -48,7 +51,7 @@ func opprec(op ast.Expr) int {
 			token.ISNOT,
 			token.ISNOTCI,
 			token.ISNOTCS:
-			return 4
+			return opprecCmp
 		case token.PLUS, token.MINUS, token.DOT:
 			return 5
 		case token.STAR, token.SLASH, token.PERCENT:
-- 
2.43.0


From 60dbe591a49299cbdfac4477ad98fffce70938bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:50 +0000
Subject: [PATCH 16/59] fix: do not take Foo1 for the user command Foo

find_command cached user commands by their full name, but looks up the
leading letters only: after :Foo, the name of :Foo1 and the "!" after it
were taken for an argument of :Foo.
---
 autoload/vimlparser.vim | 2 ++
 go/vimlparser.go        | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/autoload/vimlparser.vim b/autoload/vimlparser.vim
index 042972a..9c5d85b 100644
--- a/autoload/vimlparser.vim
+++ b/autoload/vimlparser.vim
@@ -985,6 +985,8 @@ function! s:VimLParser.find_command() abort
     let name .= self.reader.read_alnum()
     unlet cmd
     let cmd = {'name': name, 'flags': 'USERCMD', 'parser': 'parse_cmd_usercmd'}
+    " Do not cache: "Foo" of "Foo1" is another command.
+    return cmd
   endif
 
   let self.find_command_cache[name] = cmd
diff --git a/go/vimlparser.go b/go/vimlparser.go
index 179f534..6c8ee76 100644
--- a/go/vimlparser.go
+++ b/go/vimlparser.go
@@ -862,6 +862,8 @@ func (self *VimLParser) find_command() *Cmd {
 	if (cmd == nil || cmd.name == "Print") && viml_eqregh(name, "^[A-Z]") {
 		name += self.reader.read_alnum()
 		cmd = &Cmd{name: name, flags: "USERCMD", parser: "parse_cmd_usercmd"}
+		// Do not cache: "Foo" of "Foo1" is another command.
+		return cmd
 	}
 	self.find_command_cache[name] = cmd
 	return cmd
-- 
2.43.0


From 87bad656e40a402591c8ba8e6300e4cba397e9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:54 +0000
Subject: [PATCH 17/59] fix: a literal dictionary is never a lambda

---
 autoload/vimlparser.vim | 4 ++--
 go/vimlparser.go        | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/autoload/vimlparser.vim b/autoload/vimlparser.vim
index 9c5d85b..1f9a6c4 100644
--- a/autoload/vimlparser.vim
+++ b/autoload/vimlparser.vim
@@ -4205,8 +4205,8 @@ function! s:ExprParser.parse_expr9() abort
     let savepos = self.reader.tell()
     let nodepos = token.pos
     let token = self.tokenizer.get()
-    let lambda = token.type ==# s:TOKEN_ARROW
-    if !lambda && !(token.type ==# s:TOKEN_SQUOTE || token.type ==# s:TOKEN_DQUOTE)
+    let lambda = !is_litdict && token.type ==# s:TOKEN_ARROW
+    if !is_litdict && !lambda && !(token.type ==# s:TOKEN_SQUOTE || token.type ==# s:TOKEN_DQUOTE)
       " if the token type is stirng, we cannot peek next token and we can
       " assume it's not lambda.
       let token2 = self.tokenizer.peek()
diff --git a/go/vimlparser.go b/go/vimlparser.go
index 6c8ee76..97f5193 100644
--- a/go/vimlparser.go
+++ b/go/vimlparser.go
@@ -2935,8 +2935,8 @@ func (self *ExprParser) parse_expr9() *VimNode {
 		var savepos = self.reader.tell()
 		var nodepos = token.pos
 		token = self.tokenizer.get()
-		var lambda = token.type_ == TOKEN_ARROW
-		if !lambda && !(token.type_ == TOKEN_SQUOTE || token.type_ == TOKEN_DQUOTE) {
+		var lambda = !is_litdict && token.type_ == TOKEN_ARROW
+		if !is_litdict && !lambda && !(token.type_ == TOKEN_SQUOTE || token.type_ == TOKEN_DQUOTE) {
 			// if the token type is stirng, we cannot peek next token and we can
 			// assume it's not lambda.
 			var token2 = self.tokenizer.peek()
-- 
2.43.0


From 8cbc8a690a3a8eabd7dbdc9fb4fe615b438e98e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:56 +0000
Subject: [PATCH 18/59] fix: do not panic in Excmd.Cmd without a command

---
 ast/node.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/ast/node.go b/ast/node.go
index bc64b19..281710f 100644
--- a/ast/node.go
+++ b/ast/node.go
@@ -56,7 +56,15 @@ type Excmd struct {
 }
 
 func (e *Excmd) Pos() Pos { return e.Excmd }
-func (e *Excmd) Cmd() Cmd { return *e.ExArg.Cmd }
+
+// Cmd returns the command, or zero Cmd if there are only modifiers or a range
+// (e.g. ":silent", ":1").
+func (e *Excmd) Cmd() Cmd {
+	if e.ExArg.Cmd == nil {
+		return Cmd{}
+	}
+	return *e.ExArg.Cmd
+}
 
 // vimlparser: FUNCTION .ea .body .left .rlist .attr .endfunction
 type Function struct {
-- 
2.43.0


From 2870347be215f04033c07329e544fbfe763ac176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:28 +0000
Subject: [PATCH 19/59] fix: do not drop :hide

---
 autoload/vimlparser.vim | 4 +++-
 go/vimlparser.go        | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/autoload/vimlparser.vim b/autoload/vimlparser.vim
index 1f9a6c4..538e120 100644
--- a/autoload/vimlparser.vim
+++ b/autoload/vimlparser.vim
@@ -575,7 +575,9 @@ function! s:VimLParser.parse_command_modifiers() abort
     elseif stridx('keeppatterns', k) ==# 0 && len(k) >= 5 " keepp\%[atterns]
       call add(modifiers, {'name': 'keeppatterns'})
     elseif stridx('hide', k) ==# 0 && len(k) >= 3 " hid\%[e]
-      if self.ends_excmds(c)
+      if self.ends_excmds(self.reader.peekn(1))
+        " :hide is not a modifier but a command
+        call self.reader.seek_set(pos)
         break
       endif
       call add(modifiers, {'name': 'hide'})
diff --git a/go/vimlparser.go b/go/vimlparser.go
index 97f5193..8b0b881 100644
--- a/go/vimlparser.go
+++ b/go/vimlparser.go
@@ -475,7 +475,9 @@ func (self *VimLParser) parse_command_modifiers() {
 			modifiers = append(modifiers, map[string]interface{}{"name": "keeppatterns"})
 		} else if viml_stridx("hide", k) == 0 && len(k) >= 3 {
 			// hid\%[e]
-			if self.ends_excmds(c) {
+			if self.ends_excmds(self.reader.peekn(1)) {
+				// :hide is not a modifier but a command
+				self.reader.seek_set(pos)
 				break
 			}
 			modifiers = append(modifiers, map[string]interface{}{"name": "hide"})
-- 
2.43.0


From ae965b7f3597f236ed6a4d376179b3a1c8b7d702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:15 +0000
Subject: [PATCH 20/59] fix: do not skip the character after a pattern of
 :syntax

A bar or the next pattern directly after a pattern or an argument was
swallowed, so that the next command became part of :syntax.
---
 autoload/vimlparser.vim | 3 ++-
 go/vimlparser.go        | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/autoload/vimlparser.vim b/autoload/vimlparser.vim
index 538e120..9723eff 100644
--- a/autoload/vimlparser.vim
+++ b/autoload/vimlparser.vim
@@ -2142,8 +2142,9 @@ function! s:VimLParser.parse_cmd_syntax() abort
       call self.parse_pattern(' ')
     elseif self.ends_excmds(c)
       break
+    else
+      call self.reader.getn(1)
     endif
-    call self.reader.getn(1)
   endwhile
   let node = s:Node(s:NODE_EXCMD)
   let node.pos = self.ea.cmdpos
diff --git a/go/vimlparser.go b/go/vimlparser.go
index 8b0b881..48bc5c2 100644
--- a/go/vimlparser.go
+++ b/go/vimlparser.go
@@ -1977,8 +1977,9 @@ func (self *VimLParser) parse_cmd_syntax() {
 			self.parse_pattern(" ")
 		} else if self.ends_excmds(c) {
 			break
+		} else {
+			self.reader.getn(1)
 		}
-		self.reader.getn(1)
 	}
 	var node = Node(NODE_EXCMD)
 	node.pos = self.ea.cmdpos
-- 
2.43.0


From fc3b2f9b36ef6905cea7f7710ca3001a2290281d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:42 +0000
Subject: [PATCH 21/59] fix: recognize what follows :silent! or a colon after a
 modifier

---
 autoload/vimlparser.vim | 1 +
 go/vimlparser.go        | 1 +
 2 files changed, 2 insertions(+)

diff --git a/autoload/vimlparser.vim b/autoload/vimlparser.vim
index 9723eff..37c8ebc 100644
--- a/autoload/vimlparser.vim
+++ b/autoload/vimlparser.vim
@@ -547,6 +547,7 @@ endfunction
 function! s:VimLParser.parse_command_modifiers() abort
   let modifiers = []
   while s:TRUE
+    call self.reader.skip_white_and_colon()
     let pos = self.reader.tell()
     let d = ''
     if s:isdigit(self.reader.peekn(1))
diff --git a/go/vimlparser.go b/go/vimlparser.go
index 48bc5c2..f99b72f 100644
--- a/go/vimlparser.go
+++ b/go/vimlparser.go
@@ -437,6 +437,7 @@ func (self *VimLParser) parse_one_cmd() {
 func (self *VimLParser) parse_command_modifiers() {
 	var modifiers = []interface{}{}
 	for true {
+		self.reader.skip_white_and_colon()
 		var pos = self.reader.tell()
 		var d = ""
 		if isdigit(self.reader.peekn(1)) {
-- 
2.43.0


From 832212a1a49ec26f9753da4a35ec0fca550a10c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:55 +0000
Subject: [PATCH 22/59] fix: allow a bar after a range or modifiers without a
 command

---
 autoload/vimlparser.vim | 1 +
 go/vimlparser.go        | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/autoload/vimlparser.vim b/autoload/vimlparser.vim
index 37c8ebc..5ef9088 100644
--- a/autoload/vimlparser.vim
+++ b/autoload/vimlparser.vim
@@ -746,6 +746,7 @@ function! s:VimLParser.parse_command() abort
   let self.ea.cmdpos = self.reader.getpos()
 
   if self.reader.peekn(1) ==# '' || self.reader.peekn(1) ==# '"'
+  \ || self.reader.peekn(1) ==# '|' && (!empty(self.ea.modifiers) || !empty(self.ea.range))
     if !empty(self.ea.modifiers) || !empty(self.ea.range)
       call self.parse_cmd_modifier_range()
     endif
diff --git a/go/vimlparser.go b/go/vimlparser.go
index f99b72f..586769f 100644
--- a/go/vimlparser.go
+++ b/go/vimlparser.go
@@ -646,7 +646,7 @@ func (self *VimLParser) parse_pattern(delimiter string) (string, string) {
 func (self *VimLParser) parse_command() {
 	self.reader.skip_white_and_colon()
 	self.ea.cmdpos = self.reader.getpos()
-	if self.reader.peekn(1) == "" || self.reader.peekn(1) == "\"" {
+	if self.reader.peekn(1) == "" || self.reader.peekn(1) == "\"" || self.reader.peekn(1) == "|" && (!viml_empty(self.ea.modifiers) || !viml_empty(self.ea.range_)) {
 		if !viml_empty(self.ea.modifiers) || !viml_empty(self.ea.range_) {
 			self.parse_cmd_modifier_range()
 		}
-- 
2.43.0


From 8852215cef3a9d2be2ae19585e57bbf683801904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:13 +0000
Subject: [PATCH 23/59] fix: allow any character in ++bad=

---
 autoload/vimlparser.vim |  2 +-
 go/vimlfunc.go          | 10 +++++-----
 go/vimlparser.go        |  2 +-
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/autoload/vimlparser.vim b/autoload/vimlparser.vim
index 5ef9088..e23c5f8 100644
--- a/autoload/vimlparser.vim
+++ b/autoload/vimlparser.vim
@@ -1029,7 +1029,7 @@ function! s:VimLParser.parse_argopt() abort
     elseif s =~# '^++encoding=\S'
       call self.reader.getn(11)
       let self.ea.force_enc = self.reader.read_nonwhite()
-    elseif s =~# '^++bad=\(keep\|drop\|.\)\>'
+    elseif s =~# '^++bad=\(keep\|drop\|\S\)\(\s\|$\)'
       call self.reader.getn(6)
       if s =~# '^++bad=keep'
         let self.ea.bad_char = self.reader.getn(4)
diff --git a/go/vimlfunc.go b/go/vimlfunc.go
index 5b28f9d..0c036d9 100644
--- a/go/vimlfunc.go
+++ b/go/vimlfunc.go
@@ -29,11 +29,11 @@ var patVim2Go = map[string]string{
 	"\\s":                               "\\s",
 	"\\v^d%[elete][lp]$":                "^d(elete|elet|ele|el|e)[lp]$",
 	"\\v^s%(c[^sr][^i][^p]|g|i[^mlg]|I|r[^e])": "^s(c[^sr][^i][^p]|g|i[^mlg]|I|r[^e])",
-	"\\w":                             "[0-9A-Za-z_]",
-	"\\w\\|[:#]":                      "[0-9A-Za-z_]|[:#]",
-	"\\x":                             "[0-9A-Fa-f]",
-	"^++":                             "^\\+\\+",
-	"^++bad=\\(keep\\|drop\\|.\\)\\>": "^\\+\\+bad=(keep|drop|.)\\b",
+	"\\w":        "[0-9A-Za-z_]",
+	"\\w\\|[:#]": "[0-9A-Za-z_]|[:#]",
+	"\\x":        "[0-9A-Fa-f]",
+	"^++":        "^\\+\\+",
+	"^++bad=\\(keep\\|drop\\|\\S\\)\\(\\s\\|$\\)": "^\\+\\+bad=(keep|drop|[^ \\t])([ \\t]|$)",
 	"^++bad=drop":                     "^\\+\\+bad=drop",
 	"^++bad=keep":                     "^\\+\\+bad=keep",
 	"^++bin\\>":                       "^\\+\\+bin\\b",
diff --git a/go/vimlparser.go b/go/vimlparser.go
index 586769f..257b026 100644
--- a/go/vimlparser.go
+++ b/go/vimlparser.go
@@ -903,7 +903,7 @@ func (self *VimLParser) parse_argopt() {
 		} else if viml_eqregh(s, "^++encoding=\\S") {
 			self.reader.getn(11)
 			self.ea.force_enc = self.reader.read_nonwhite()
-		} else if viml_eqregh(s, "^++bad=\\(keep\\|drop\\|.\\)\\>") {
+		} else if viml_eqregh(s, "^++bad=\\(keep\\|drop\\|\\S\\)\\(\\s\\|$\\)") {
 			self.reader.getn(6)
 			if viml_eqregh(s, "^++bad=keep") {
 				self.ea.bad_char = self.reader.getn(4)
-- 
2.43.0


From 9b9b913926ad74cf07e3de951c079398a199c53c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:18 +0000
Subject: [PATCH 24/59] fix: :edit + without a command means the last line also
 before a tab or the end

---
 autoload/vimlparser.vim | 2 +-
 go/vimlparser.go        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/autoload/vimlparser.vim b/autoload/vimlparser.vim
index e23c5f8..00bbe70 100644
--- a/autoload/vimlparser.vim
+++ b/autoload/vimlparser.vim
@@ -1052,7 +1052,7 @@ endfunction
 function! s:VimLParser.parse_argcmd() abort
   if self.reader.peekn(1) ==# '+'
     call self.reader.getn(1)
-    if self.reader.peekn(1) ==# ' '
+    if self.reader.peekn(1) ==# '' || s:iswhite(self.reader.peekn(1))
       let self.ea.do_ecmd_cmd = '$'
     else
       let self.ea.do_ecmd_cmd = self.read_cmdarg()
diff --git a/go/vimlparser.go b/go/vimlparser.go
index 257b026..ed7e41f 100644
--- a/go/vimlparser.go
+++ b/go/vimlparser.go
@@ -926,7 +926,7 @@ func (self *VimLParser) parse_argopt() {
 func (self *VimLParser) parse_argcmd() {
 	if self.reader.peekn(1) == "+" {
 		self.reader.getn(1)
-		if self.reader.peekn(1) == " " {
+		if self.reader.peekn(1) == "" || iswhite(self.reader.peekn(1)) {
 			self.ea.do_ecmd_cmd = "$"
 		} else {
 			self.ea.do_ecmd_cmd = self.read_cmdarg()
-- 
2.43.0


From 7f062d91af3b699d230f610e0d80cd72607e4fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:17 +0000
Subject: [PATCH 25/59] fix: allow the end marker of =<< trim to be indented
 like :let

---
 autoload/vimlparser.vim | 20 +++++++++++++++++++-
 go/typedefs.vim         |  1 +
 go/vimlparser.go        | 20 +++++++++++++++++++-
 3 files changed, 39 insertions(+), 2 deletions(-)

diff --git a/autoload/vimlparser.vim b/autoload/vimlparser.vim
index 00bbe70..68620eb 100644
--- a/autoload/vimlparser.vim
+++ b/autoload/vimlparser.vim
@@ -1520,6 +1520,7 @@ function! s:VimLParser.parse_heredoc() abort
   let node.op = ''
   let node.rlist = []
   let node.body = []
+  let indent = ''
 
   while s:TRUE
     call self.reader.skip_white()
@@ -1536,6 +1537,9 @@ function! s:VimLParser.parse_heredoc() abort
       let keynode.pos = pos
       let keynode.value = key
       call add(node.rlist, keynode)
+      if key ==# 'trim'
+        let indent = self.reader.get_indent(self.ea.linepos)
+      endif
     endif
   endwhile
   if node.op ==# ''
@@ -1548,7 +1552,7 @@ function! s:VimLParser.parse_heredoc() abort
     endif
     let pos = self.reader.getpos()
     let line = self.reader.getn(-1)
-    if line ==# node.op
+    if line ==# node.op || line ==# indent . node.op
       return node
     endif
     let linenode = s:Node(s:NODE_STRING)
@@ -4733,6 +4737,20 @@ function! s:StringReader.setpos(pos) abort
   let self.i  = a:pos.i
 endfunction
 
+" white space at the beginning of the line of {pos}
+function! s:StringReader.get_indent(pos) abort
+  let i = a:pos.i
+  while i > 0 && self.buf[i - 1] !=# '<EOL>'
+    let i -= 1
+  endwhile
+  let r = ''
+  while s:iswhite(self.buf[i])
+    let r .= self.buf[i]
+    let i += 1
+  endwhile
+  return r
+endfunction
+
 function! s:StringReader.read_alpha() abort
   let r = ''
   while s:isalpha(self.peekn(1))
diff --git a/go/typedefs.vim b/go/typedefs.vim
index c53be39..478ad0a 100644
--- a/go/typedefs.vim
+++ b/go/typedefs.vim
@@ -228,6 +228,7 @@ call extend(s:typedefs.func, {
 \   'StringReader.read_integer': { 'in': [], 'out': ['string'] },
 \   'StringReader.read_word': { 'in': [], 'out': ['string'] },
 \   'StringReader.read_white': { 'in': [], 'out': ['string'] },
+\   'StringReader.get_indent': { 'in': ['*pos'], 'out': ['string'] },
 \   'StringReader.read_nonwhite': { 'in': [], 'out': ['string'] },
 \   'StringReader.read_name': { 'in': [], 'out': ['string'] },
 \ })
diff --git a/go/vimlparser.go b/go/vimlparser.go
index ed7e41f..4a9127f 100644
--- a/go/vimlparser.go
+++ b/go/vimlparser.go
@@ -1381,6 +1381,7 @@ func (self *VimLParser) parse_heredoc() *VimNode {
 	node.pos = self.ea.cmdpos
 	node.op = ""
 	node.rlist = []*VimNode{}
+	var indent = ""
 	for true {
 		self.reader.skip_white()
 		var pos = self.reader.getpos()
@@ -1396,6 +1397,9 @@ func (self *VimLParser) parse_heredoc() *VimNode {
 			keynode.pos = pos
 			keynode.value = key
 			node.rlist = append(node.rlist, keynode)
+			if key == "trim" {
+				indent = self.reader.get_indent(self.ea.linepos)
+			}
 		}
 	}
 	if node.op == "" {
@@ -1408,7 +1412,7 @@ func (self *VimLParser) parse_heredoc() *VimNode {
 		}
 		var pos = self.reader.getpos()
 		var line = self.reader.getn(-1)
-		if line == node.op {
+		if line == node.op || line == indent+node.op {
 			return node
 		}
 		var linenode = Node(NODE_STRING)
@@ -3413,6 +3417,20 @@ func (self *StringReader) setpos(pos *pos) {
 	self.i = pos.i
 }
 
+// white space at the beginning of the line of {pos}
+func (self *StringReader) get_indent(pos *pos) string {
+	var i = pos.i
+	for i > 0 && self.buf[i-1] != "<EOL>" {
+		i -= 1
+	}
+	var r = ""
+	for iswhite(self.buf[i]) {
+		r += self.buf[i]
+		i += 1
+	}
+	return r
+}
+
 func (self *StringReader) read_alpha() string {
 	var r = ""
 	for isalpha(self.peekn(1)) {
-- 
2.43.0


From 4961a88e41fa8606dc60caf6046817fffdc94bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:53 +0000
Subject: [PATCH 26/59] fix: :break and :continue do not belong to a loop
 around the function

---
 autoload/vimlparser.vim | 4 ++++
 go/vimlparser.go        | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/autoload/vimlparser.vim b/autoload/vimlparser.vim
index 68620eb..46d93b1 100644
--- a/autoload/vimlparser.vim
+++ b/autoload/vimlparser.vim
@@ -460,6 +460,10 @@ function! s:VimLParser.find_context(type) abort
     if node.type ==# a:type
       return i
     endif
+    if node.type ==# s:NODE_FUNCTION
+      " The blocks around a function are not those of its body.
+      break
+    endif
     let i += 1
   endfor
   return -1
diff --git a/go/vimlparser.go b/go/vimlparser.go
index 4a9127f..6d738e3 100644
--- a/go/vimlparser.go
+++ b/go/vimlparser.go
@@ -353,6 +353,10 @@ func (self *VimLParser) find_context(type_ int) int {
 		if node.type_ == type_ {
 			return i
 		}
+		if node.type_ == NODE_FUNCTION {
+			// The blocks around a function are not those of its body.
+			break
+		}
 		i += 1
 	}
 	return -1
-- 
2.43.0


From 1e00e409c9104231dcc99a53f8cc979a6f8603dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:01 +0000
Subject: [PATCH 27/59] fix: an unbalanced bracket does not hide the end of a
 pattern

---
 autoload/vimlparser.vim | 12 ++++++++++--
 go/vimlfunc.go          | 11 ++++++-----
 go/vimlparser.go        | 12 ++++++++++--
 3 files changed, 26 insertions(+), 9 deletions(-)

diff --git a/autoload/vimlparser.vim b/autoload/vimlparser.vim
index 46d93b1..ed98046 100644
--- a/autoload/vimlparser.vim
+++ b/autoload/vimlparser.vim
@@ -735,9 +735,17 @@ function! s:VimLParser.parse_pattern(delimiter) abort
       endif
       call self.reader.getn(1)
       let pattern .= c
-    elseif c ==# '['
+    elseif c ==# '[' && inbracket ==# 0
+      let inbracket = 1
+      if self.reader.peekn(1) ==# '^'
+        let pattern .= self.reader.getn(1)
+      endif
+      if self.reader.peekn(1) ==# ']'
+        let pattern .= self.reader.getn(1)
+      endif
+    elseif c ==# '[' && self.reader.peekn(12) =~# '^\(:\a\+:\|=.=\|\..\.\)\]'
       let inbracket += 1
-    elseif c ==# ']'
+    elseif c ==# ']' && inbracket > 0
       let inbracket -= 1
     endif
   endwhile
diff --git a/go/vimlfunc.go b/go/vimlfunc.go
index 0c036d9..02c6e93 100644
--- a/go/vimlfunc.go
+++ b/go/vimlfunc.go
@@ -42,11 +42,12 @@ var patVim2Go = map[string]string{
 	"^++encoding=\\S":                 "^\\+\\+encoding=\\S",
 	"^++ff=\\(dos\\|unix\\|mac\\)\\>": "^\\+\\+ff=(dos|unix|mac)\\b",
 	"^++fileformat=\\(dos\\|unix\\|mac\\)\\>": "^\\+\\+fileformat=(dos|unix|mac)\\b",
-	"^++nobin\\>":                  "^\\+\\+nobin\\b",
-	"^[A-Z]":                       "^[A-Z]",
-	"^\\$\\w\\+":                   "^\\$[0-9A-Za-z_]+",
-	"^\\(!\\|global\\|vglobal\\)$": "^(!|global|vglobal)$",
-	"^\\(WHILE\\|FOR\\)$":          "^(WHILE|FOR)$",
+	"^++nobin\\>":                        "^\\+\\+nobin\\b",
+	"^[A-Z]":                             "^[A-Z]",
+	"^\\$\\w\\+":                         "^\\$[0-9A-Za-z_]+",
+	"^\\(!\\|global\\|vglobal\\)$":       "^(!|global|vglobal)$",
+	"^\\(:\\a\\+:\\|=.=\\|\\..\\.\\)\\]": "^(:[A-Za-z]+:|=.=|\\..\\.)\\]",
+	"^\\(WHILE\\|FOR\\)$":                "^(WHILE|FOR)$",
 	"^\\(vimgrep\\|vimgrepadd\\|lvimgrep\\|lvimgrepadd\\)$": "^(vimgrep|vimgrepadd|lvimgrep|lvimgrepadd)$",
 	"^\\d":                     "^\\d",
 	"^\\h":                     "^[A-Za-z_]",
diff --git a/go/vimlparser.go b/go/vimlparser.go
index 6d738e3..8a70ada 100644
--- a/go/vimlparser.go
+++ b/go/vimlparser.go
@@ -638,9 +638,17 @@ func (self *VimLParser) parse_pattern(delimiter string) (string, string) {
 			}
 			self.reader.getn(1)
 			pattern += c
-		} else if c == "[" {
+		} else if c == "[" && inbracket == 0 {
+			inbracket = 1
+			if self.reader.peekn(1) == "^" {
+				pattern += self.reader.getn(1)
+			}
+			if self.reader.peekn(1) == "]" {
+				pattern += self.reader.getn(1)
+			}
+		} else if c == "[" && viml_eqregh(self.reader.peekn(12), "^\\(:\\a\\+:\\|=.=\\|\\..\\.\\)\\]") {
 			inbracket += 1
-		} else if c == "]" {
+		} else if c == "]" && inbracket > 0 {
 			inbracket -= 1
 		}
 	}
-- 
2.43.0


From b0a1f64f3fe40614cfd8e14aa6475d295592d9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:59 +0000
Subject: [PATCH 28/59] fix: an opening brace at the end of a line does not
 look into the next line

---
 autoload/vimlparser.vim | 6 +++---
 go/vimlparser.go        | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/autoload/vimlparser.vim b/autoload/vimlparser.vim
index ed98046..c372a08 100644
--- a/autoload/vimlparser.vim
+++ b/autoload/vimlparser.vim
@@ -4227,9 +4227,9 @@ function! s:ExprParser.parse_expr9() abort
     let nodepos = token.pos
     let token = self.tokenizer.get()
     let lambda = !is_litdict && token.type ==# s:TOKEN_ARROW
-    if !is_litdict && !lambda && !(token.type ==# s:TOKEN_SQUOTE || token.type ==# s:TOKEN_DQUOTE)
-      " if the token type is stirng, we cannot peek next token and we can
-      " assume it's not lambda.
+    if !is_litdict && !lambda && !(token.type ==# s:TOKEN_SQUOTE || token.type ==# s:TOKEN_DQUOTE || token.type ==# s:TOKEN_EOL)
+      " if the token type is stirng or the line ends here, we cannot peek next
+      " token and we can assume it's not lambda.
       let token2 = self.tokenizer.peek()
       let lambda = token2.type ==# s:TOKEN_ARROW || token2.type ==# s:TOKEN_COMMA
     endif
diff --git a/go/vimlparser.go b/go/vimlparser.go
index 8a70ada..83feffa 100644
--- a/go/vimlparser.go
+++ b/go/vimlparser.go
@@ -2956,9 +2956,9 @@ func (self *ExprParser) parse_expr9() *VimNode {
 		var nodepos = token.pos
 		token = self.tokenizer.get()
 		var lambda = !is_litdict && token.type_ == TOKEN_ARROW
-		if !is_litdict && !lambda && !(token.type_ == TOKEN_SQUOTE || token.type_ == TOKEN_DQUOTE) {
-			// if the token type is stirng, we cannot peek next token and we can
-			// assume it's not lambda.
+		if !is_litdict && !lambda && !(token.type_ == TOKEN_SQUOTE || token.type_ == TOKEN_DQUOTE || token.type_ == TOKEN_EOL) {
+			// if the token type is stirng or the line ends here, we cannot peek next
+			// token and we can assume it's not lambda.
 			var token2 = self.tokenizer.peek()
 			lambda = token2.type_ == TOKEN_ARROW || token2.type_ == TOKEN_COMMA
 		}
-- 
2.43.0


From f2b6d2bcf61a3989a6515d7238efb7f138580558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:22 +0000
Subject: [PATCH 29/59] fix: Inspect calls f(nil) after the children of a node

---
 ast/walk.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ast/walk.go b/ast/walk.go
index ac9c30e..38fecc2 100644
--- a/ast/walk.go
+++ b/ast/walk.go
@@ -244,7 +244,7 @@ func walkStmtList(v Visitor, list []Statement) {
 type inspector func(Node) bool
 
 func (f inspector) Visit(node Node) Visitor {
-	if node != nil && f(node) {
+	if f(node) {
 		return f
 	}
 	return nil
-- 
2.43.0


From 031ae74f53c2c7423d2bd1524c1f6fc3e0e77a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:45 +0000
Subject: [PATCH 30/59] fix: a comment behind =<< comes after the :let in the
 AST

---
 autoload/vimlparser.vim | 2 +-
 go/vimlparser.go        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/autoload/vimlparser.vim b/autoload/vimlparser.vim
index c372a08..14c8196 100644
--- a/autoload/vimlparser.vim
+++ b/autoload/vimlparser.vim
@@ -1622,9 +1622,9 @@ function! s:VimLParser.parse_cmd_let() abort
     call self.reader.getn(len(s2))
     call self.reader.skip_white()
     let node.op = s2
+    call self.add_node(node)
     let node.right = self.parse_heredoc()
     let node.right.pos = oppos
-    call self.add_node(node)
     return
   elseif s1 ==# '='
     call self.reader.getn(1)
diff --git a/go/vimlparser.go b/go/vimlparser.go
index 83feffa..c822b97 100644
--- a/go/vimlparser.go
+++ b/go/vimlparser.go
@@ -1478,9 +1478,9 @@ func (self *VimLParser) parse_cmd_let() {
 		self.reader.getn(len(s2))
 		self.reader.skip_white()
 		node.op = s2
+		self.add_node(node)
 		node.right = self.parse_heredoc()
 		node.right.pos = oppos
-		self.add_node(node)
 		return
 	} else if s1 == "=" {
 		self.reader.getn(1)
-- 
2.43.0


From bf1e6a6eda9d014356d143699f2ee4b7a95fe73c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:32 +0000
Subject: [PATCH 31/59] fix: a mark without a name at the end of a line is an
 error, not nothing

---
 autoload/vimlparser.vim | 2 +-
 go/vimlparser.go        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/autoload/vimlparser.vim b/autoload/vimlparser.vim
index 14c8196..7156dcb 100644
--- a/autoload/vimlparser.vim
+++ b/autoload/vimlparser.vim
@@ -653,7 +653,7 @@ function! s:VimLParser.parse_range() abort
         call self.reader.getn(1)
         let m = self.reader.getn(1)
         if m ==# ''
-          break
+          throw s:Err('E78: Unknown mark', self.reader.getpos())
         endif
         call add(tokens, "'" . m)
       elseif c ==# '/'
diff --git a/go/vimlparser.go b/go/vimlparser.go
index c822b97..332d45f 100644
--- a/go/vimlparser.go
+++ b/go/vimlparser.go
@@ -561,7 +561,7 @@ func (self *VimLParser) parse_range() {
 				self.reader.getn(1)
 				var m = self.reader.getn(1)
 				if m == "" {
-					break
+					panic(Err("E78: Unknown mark", self.reader.getpos()))
 				}
 				tokens = append(tokens, "'"+m)
 			} else if c == "/" {
-- 
2.43.0


From 3f455270b5789be0a489b92e7c74f03d3b81fa89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:53 +0000
Subject: [PATCH 32/59] fix: a bar behind the marker of a heredoc is an error

---
 autoload/vimlparser.vim | 5 +++++
 go/vimlparser.go        | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/autoload/vimlparser.vim b/autoload/vimlparser.vim
index 7156dcb..5d13407 100644
--- a/autoload/vimlparser.vim
+++ b/autoload/vimlparser.vim
@@ -1557,6 +1557,11 @@ function! s:VimLParser.parse_heredoc() abort
   if node.op ==# ''
     throw s:Err('E172: Missing marker', self.reader.getpos())
   endif
+  call self.reader.skip_white()
+  if self.reader.peekn(1) ==# '|'
+    " the rest of the line is no line of the heredoc
+    throw s:Err('E488: Trailing characters: |', self.reader.getpos())
+  endif
   call self.parse_trail()
   while s:TRUE
     if self.reader.peek() ==# '<EOF>'
diff --git a/go/vimlparser.go b/go/vimlparser.go
index 332d45f..7680a32 100644
--- a/go/vimlparser.go
+++ b/go/vimlparser.go
@@ -1417,6 +1417,11 @@ func (self *VimLParser) parse_heredoc() *VimNode {
 	if node.op == "" {
 		panic(Err("E172: Missing marker", self.reader.getpos()))
 	}
+	self.reader.skip_white()
+	if self.reader.peekn(1) == "|" {
+		// the rest of the line is no line of the heredoc
+		panic(Err("E488: Trailing characters: |", self.reader.getpos()))
+	}
 	self.parse_trail()
 	for true {
 		if self.reader.peek() == "<EOF>" {
-- 
2.43.0


From a4ce93460fbeeb57abe686777529746f273ac129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:23 +0000
Subject: [PATCH 33/59] fix: offsets count the carriage returns of CR LF line
 ends

---
 go/type.go    | 19 +++++++++++++++----
 vimlparser.go |  3 +--
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/go/type.go b/go/type.go
index caecd6a..06bb5f1 100644
--- a/go/type.go
+++ b/go/type.go
@@ -197,7 +197,8 @@ func (self *StringReader) __init__(lines []string) {
 	var offset = 0
 	for lnum < len(lines) {
 		var col = 0
-		for _, c := range splitChars(lines[lnum]) {
+		line, eol := cutCR(lines[lnum])
+		for _, c := range splitChars(line) {
 			self.buf = append(self.buf, c)
 			self.pos = append(self.pos, pos{lnum: lnum + 1, col: col + 1, offset: offset})
 			col += len(c)
@@ -206,8 +207,9 @@ func (self *StringReader) __init__(lines []string) {
 		for lnum+1 < len(lines) && viml_eqregh(lines[lnum+1], "^\\s*\\\\") {
 			var skip = true
 			col = 0
-			offset += 1
-			for _, c := range splitChars(lines[lnum+1]) {
+			offset += eol
+			line, eol = cutCR(lines[lnum+1])
+			for _, c := range splitChars(line) {
 				if skip {
 					if c == "\\" {
 						skip = false
@@ -224,13 +226,22 @@ func (self *StringReader) __init__(lines []string) {
 		self.buf = append(self.buf, "<EOL>")
 		self.pos = append(self.pos, pos{lnum: lnum + 1, col: col + 1, offset: offset})
 		lnum += 1
-		offset += 1
+		offset += eol
 	}
 	// for <EOF>
 	self.pos = append(self.pos, pos{lnum: lnum + 1, col: 0, offset: offset})
 	self.i = 0
 }
 
+// cutCR removes a carriage return from the end of a line. It returns the line
+// and the length of its end in bytes.
+func cutCR(line string) (string, int) {
+	if strings.HasSuffix(line, "\r") {
+		return line[:len(line)-1], 2
+	}
+	return line, 1
+}
+
 func (self *StringReader) getpos() *pos {
 	p := self.pos[self.i]
 	p.i = self.i
diff --git a/vimlparser.go b/vimlparser.go
index d20ec65..6702e50 100644
--- a/vimlparser.go
+++ b/vimlparser.go
@@ -101,8 +101,7 @@ func readlines(r io.Reader) ([]string, error) {
 			return nil, err
 		}
 		if line != "" {
-			line = strings.TrimSuffix(line, "\n")
-			lines = append(lines, strings.TrimSuffix(line, "\r"))
+			lines = append(lines, strings.TrimSuffix(line, "\n"))
 		}
 		if err == io.EOF {
 			return lines, nil
-- 
2.43.0


From 5748346c34443955185b276432f7896b53151698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:11 +0000
Subject: [PATCH 34/59] fix: :dl and :dp are :delete with a flag

---
 go/vimlfunc.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/go/vimlfunc.go b/go/vimlfunc.go
index 02c6e93..852e4a7 100644
--- a/go/vimlfunc.go
+++ b/go/vimlfunc.go
@@ -27,7 +27,7 @@ var patVim2Go = map[string]string{
 	"\\d":                               "\\d",
 	"\\h":                               "[A-Za-z_]",
 	"\\s":                               "\\s",
-	"\\v^d%[elete][lp]$":                "^d(elete|elet|ele|el|e)[lp]$",
+	"\\v^d%[elete][lp]$":                "^d(elete|elet|ele|el|e)?[lp]$",
 	"\\v^s%(c[^sr][^i][^p]|g|i[^mlg]|I|r[^e])": "^s(c[^sr][^i][^p]|g|i[^mlg]|I|r[^e])",
 	"\\w":        "[0-9A-Za-z_]",
 	"\\w\\|[:#]": "[0-9A-Za-z_]|[:#]",
-- 
2.43.0


From 7d324ff63b82cf1bd729467b41c418a90db7b65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:24 +0000
Subject: [PATCH 35/59] fix: Walk does not visit nil children of other kinds of
 nodes

---
 ast/walk.go | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/ast/walk.go b/ast/walk.go
index 38fecc2..a39e772 100644
--- a/ast/walk.go
+++ b/ast/walk.go
@@ -42,7 +42,9 @@ func Walk(v Visitor, node Node) {
 		walkIdentList(v, n.Params)
 		walkExprList(v, n.DefaultArgs)
 		walkStmtList(v, n.Body)
-		Walk(v, n.EndFunction)
+		if n.EndFunction != nil {
+			Walk(v, n.EndFunction)
+		}
 
 	case *EndFunction: // nothing to do
 
@@ -53,7 +55,9 @@ func Walk(v Visitor, node Node) {
 		Walk(v, n.Result)
 
 	case *ExCall:
-		Walk(v, n.FuncCall)
+		if n.FuncCall != nil {
+			Walk(v, n.FuncCall)
+		}
 
 	case *Let:
 		Walk(v, n.Left)
@@ -95,7 +99,9 @@ func Walk(v Visitor, node Node) {
 	case *While:
 		Walk(v, n.Condition)
 		walkStmtList(v, n.Body)
-		Walk(v, n.EndWhile)
+		if n.EndWhile != nil {
+			Walk(v, n.EndWhile)
+		}
 
 	case *EndWhile: // nothing to do
 
@@ -105,7 +111,9 @@ func Walk(v Visitor, node Node) {
 		Walk(v, n.Rest)
 		Walk(v, n.Right)
 		walkStmtList(v, n.Body)
-		Walk(v, n.EndFor)
+		if n.EndFor != nil {
+			Walk(v, n.EndFor)
+		}
 
 	case *EndFor: // nothing to do
 
@@ -179,7 +187,9 @@ func Walk(v Visitor, node Node) {
 
 	case *DotExpr:
 		Walk(v, n.Left)
-		Walk(v, n.Right)
+		if n.Right != nil {
+			Walk(v, n.Right)
+		}
 
 	case *BasicLit: // nothing to do
 
-- 
2.43.0


From 8462cffbbe154c1871941026f149226125105507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:30 +0000
Subject: [PATCH 36/59] =?UTF-8?q?fix:=20=3D=3D=3F=20folds=20case=20as=20Vi?=
 =?UTF-8?q?m=20does,=20<S=C4=B0D>=20is=20not=20<SID>?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 go/vimlfunc.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/go/vimlfunc.go b/go/vimlfunc.go
index 852e4a7..17c2991 100644
--- a/go/vimlfunc.go
+++ b/go/vimlfunc.go
@@ -87,7 +87,7 @@ func viml_empty(obj interface{}) bool {
 }
 
 func viml_equalci(a, b string) bool {
-	return strings.ToLower(a) == strings.ToLower(b)
+	return strings.EqualFold(a, b)
 }
 
 func viml_eqregh(s, reg string) bool {
-- 
2.43.0


From 5eb13655648717cf4b18e3487bafc5e71e152779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:30 +0000
Subject: [PATCH 37/59] fix: ++enc= and ++encoding= accept what Vim's \S
 matches, form feeds too

---
 go/vimlfunc.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/go/vimlfunc.go b/go/vimlfunc.go
index 17c2991..046e3fb 100644
--- a/go/vimlfunc.go
+++ b/go/vimlfunc.go
@@ -38,8 +38,8 @@ var patVim2Go = map[string]string{
 	"^++bad=keep":                     "^\\+\\+bad=keep",
 	"^++bin\\>":                       "^\\+\\+bin\\b",
 	"^++edit\\>":                      "^\\+\\+edit\\b",
-	"^++enc=\\S":                      "^\\+\\+enc=\\S",
-	"^++encoding=\\S":                 "^\\+\\+encoding=\\S",
+	"^++enc=\\S":                      "^\\+\\+enc=[^ \\t]",
+	"^++encoding=\\S":                 "^\\+\\+encoding=[^ \\t]",
 	"^++ff=\\(dos\\|unix\\|mac\\)\\>": "^\\+\\+ff=(dos|unix|mac)\\b",
 	"^++fileformat=\\(dos\\|unix\\|mac\\)\\>": "^\\+\\+fileformat=(dos|unix|mac)\\b",
 	"^++nobin\\>":                        "^\\+\\+nobin\\b",
-- 
2.43.0


From 00b5601acf0f7cd38ff0c1e85475ca6d603b4af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:58 +0000
Subject: [PATCH 38/59] fix: 1.2.3 is 1 . 2 . 3: a number followed by . or a
 letter is no Float

---
 autoload/vimlparser.vim | 15 +++++++++++----
 go/vimlparser.go        | 15 +++++++++++----
 2 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/autoload/vimlparser.vim b/autoload/vimlparser.vim
index 5d13407..73e98d3 100644
--- a/autoload/vimlparser.vim
+++ b/autoload/vimlparser.vim
@@ -3330,11 +3330,18 @@ function! s:ExprTokenizer.get2() abort
   elseif s:isdigit(c)
     let s = r.read_digit()
     if r.p(0) ==# '.' && s:isdigit(r.p(1))
-      let s .= r.getn(1)
-      let s .= r.read_digit()
+      let savepos = r.tell()
+      let f = s . r.getn(1)
+      let f .= r.read_digit()
       if (r.p(0) ==# 'E' || r.p(0) ==# 'e') && (s:isdigit(r.p(1)) || ((r.p(1) ==# '-' || r.p(1) ==# '+') && s:isdigit(r.p(2))))
-        let s .= r.getn(2)
-        let s .= r.read_digit()
+        let f .= r.getn(2)
+        let f .= r.read_digit()
+      endif
+      if s:isalpha(r.p(0)) || r.p(0) ==# '.'
+        " 1.2.3 is 1 . 2 . 3
+        call r.seek_set(savepos)
+      else
+        let s = f
       endif
     endif
     return self.token(s:TOKEN_NUMBER, s, pos)
diff --git a/go/vimlparser.go b/go/vimlparser.go
index 7680a32..b65be5b 100644
--- a/go/vimlparser.go
+++ b/go/vimlparser.go
@@ -2066,11 +2066,18 @@ func (self *ExprTokenizer) get2() *ExprToken {
 	} else if isdigit(c) {
 		var s = r.read_digit()
 		if r.p(0) == "." && isdigit(r.p(1)) {
-			s += r.getn(1)
-			s += r.read_digit()
+			var savepos = r.tell()
+			var f = s + r.getn(1)
+			f += r.read_digit()
 			if (r.p(0) == "E" || r.p(0) == "e") && (isdigit(r.p(1)) || ((r.p(1) == "-" || r.p(1) == "+") && isdigit(r.p(2)))) {
-				s += r.getn(2)
-				s += r.read_digit()
+				f += r.getn(2)
+				f += r.read_digit()
+			}
+			if isalpha(r.p(0)) || r.p(0) == "." {
+				// 1.2.3 is 1 . 2 . 3
+				r.seek_set(savepos)
+			} else {
+				s = f
 			}
 		}
 		return self.token(TOKEN_NUMBER, s, pos)
-- 
2.43.0


From b02e4b615691dd1350bab29cc8837288b1ec0c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:14 +0000
Subject: [PATCH 39/59] fix: there is no Float after the concatenation
 operator, a . 1.2 is a . 1 . 2

---
 autoload/vimlparser.vim | 11 +++++++++++
 go/type.go              |  1 +
 go/vimlparser.go        | 11 +++++++++++
 3 files changed, 23 insertions(+)

diff --git a/autoload/vimlparser.vim b/autoload/vimlparser.vim
index 73e98d3..397fdf1 100644
--- a/autoload/vimlparser.vim
+++ b/autoload/vimlparser.vim
@@ -3666,6 +3666,7 @@ endfunction
 
 function! s:ExprParser.__init__(reader) abort
   let self.reader = a:reader
+  let self.nofloat = s:FALSE
   let self.tokenizer = s:ExprTokenizer.new(a:reader)
 endfunction
 
@@ -3965,12 +3966,14 @@ function! s:ExprParser.parse_expr5() abort
       let node = s:Node(s:NODE_CONCAT)
       let node.pos = token.pos
       let node.left = left
+      let self.nofloat = s:TRUE
       let node.right = self.parse_expr6()
       let left = node
     elseif token.type ==# s:TOKEN_DOT " TODO check scriptversion?
       let node = s:Node(s:NODE_CONCAT)
       let node.pos = token.pos
       let node.left = left
+      let self.nofloat = s:TRUE
       let node.right = self.parse_expr6()
       let left = node
     else
@@ -4189,11 +4192,19 @@ endfunction
 function! s:ExprParser.parse_expr9() abort
   let pos = self.reader.tell()
   let token = self.tokenizer.get()
+  let nofloat = self.nofloat
+  let self.nofloat = s:FALSE
   let node = s:Node(-1)
   if token.type ==# s:TOKEN_NUMBER
     let node = s:Node(s:NODE_NUMBER)
     let node.pos = token.pos
     let node.value = token.value
+    if nofloat && stridx(token.value, '.') !=# -1
+      " There is no Float after the concatenation operator: a . 1.2 is a . 1 . 2
+      call self.reader.seek_set(pos)
+      call self.reader.skip_white()
+      let node.value = self.reader.read_digit()
+    endif
   elseif token.type ==# s:TOKEN_BLOB
     let node = s:Node(s:NODE_BLOB)
     let node.pos = token.pos
diff --git a/go/type.go b/go/type.go
index 06bb5f1..f01d359 100644
--- a/go/type.go
+++ b/go/type.go
@@ -155,6 +155,7 @@ func (self *ExprTokenizer) token(type_ int, value string, pos *pos) *ExprToken {
 
 type ExprParser struct {
 	reader    *StringReader
+	nofloat   bool
 	tokenizer *ExprTokenizer
 }
 
diff --git a/go/vimlparser.go b/go/vimlparser.go
index b65be5b..3b41ee7 100644
--- a/go/vimlparser.go
+++ b/go/vimlparser.go
@@ -2396,6 +2396,7 @@ func (self *ExprTokenizer) parse_dict_literal_key() *VimNode {
 
 func (self *ExprParser) __init__(reader *StringReader) {
 	self.reader = reader
+	self.nofloat = false
 	self.tokenizer = NewExprTokenizer(reader)
 }
 
@@ -2696,6 +2697,7 @@ func (self *ExprParser) parse_expr5() *VimNode {
 			var node = Node(NODE_CONCAT)
 			node.pos = token.pos
 			node.left = left
+			self.nofloat = true
 			node.right = self.parse_expr6()
 			left = node
 		} else if token.type_ == TOKEN_DOT {
@@ -2703,6 +2705,7 @@ func (self *ExprParser) parse_expr5() *VimNode {
 			var node = Node(NODE_CONCAT)
 			node.pos = token.pos
 			node.left = left
+			self.nofloat = true
 			node.right = self.parse_expr6()
 			left = node
 		} else {
@@ -2918,11 +2921,19 @@ func (self *ExprParser) parse_rlist() []*VimNode {
 func (self *ExprParser) parse_expr9() *VimNode {
 	var pos = self.reader.tell()
 	var token = self.tokenizer.get()
+	var nofloat = self.nofloat
+	self.nofloat = false
 	var node = Node(-1)
 	if token.type_ == TOKEN_NUMBER {
 		node = Node(NODE_NUMBER)
 		node.pos = token.pos
 		node.value = token.value
+		if nofloat && viml_stridx(token.value, ".") != -1 {
+			// There is no Float after the concatenation operator: a . 1.2 is a . 1 . 2
+			self.reader.seek_set(pos)
+			self.reader.skip_white()
+			node.value = self.reader.read_digit()
+		}
 	} else if token.type_ == TOKEN_BLOB {
 		node = Node(NODE_BLOB)
 		node.pos = token.pos
-- 
2.43.0


From 0fe7f682ef64d46cc556cc2d7a0114fdff3b318f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:38 +0000
Subject: [PATCH 40/59] fix: the sign of a number comes before what follows it,
 -1->abs() is (-1)->abs()

---
 autoload/vimlparser.vim | 42 +++++++++++++++++++++++++++++++----------
 go/typedefs.vim         |  2 ++
 go/vimlparser.go        | 42 +++++++++++++++++++++++++++++++----------
 3 files changed, 66 insertions(+), 20 deletions(-)

diff --git a/autoload/vimlparser.vim b/autoload/vimlparser.vim
index 397fdf1..55812d0 100644
--- a/autoload/vimlparser.vim
+++ b/autoload/vimlparser.vim
@@ -4029,15 +4029,24 @@ function! s:ExprParser.parse_expr7() abort
     let node.pos = token.pos
     let node.left = self.parse_expr7()
     return node
-  elseif token.type ==# s:TOKEN_MINUS
-    let node = s:Node(s:NODE_MINUS)
-    let node.pos = token.pos
-    let node.left = self.parse_expr7()
-    return node
-  elseif token.type ==# s:TOKEN_PLUS
-    let node = s:Node(s:NODE_PLUS)
-    let node.pos = token.pos
-    let node.left = self.parse_expr7()
+  elseif token.type ==# s:TOKEN_MINUS || token.type ==# s:TOKEN_PLUS
+    let node = self.parse_sign(token)
+    let last = node
+    let pos = self.reader.tell()
+    let token = self.tokenizer.get()
+    while token.type ==# s:TOKEN_MINUS || token.type ==# s:TOKEN_PLUS
+      let last.left = self.parse_sign(token)
+      let last = last.left
+      let pos = self.reader.tell()
+      let token = self.tokenizer.get()
+    endwhile
+    call self.reader.seek_set(pos)
+    if token.type ==# s:TOKEN_NUMBER
+      " The sign of a number comes first: -1->abs() is (-1)->abs()
+      let last.left = self.parse_expr9()
+      return self.parse_postfix(node)
+    endif
+    let last.left = self.parse_expr7()
     return node
   else
     call self.reader.seek_set(pos)
@@ -4046,6 +4055,15 @@ function! s:ExprParser.parse_expr7() abort
   endif
 endfunction
 
+function! s:ExprParser.parse_sign(token) abort
+  let node = s:Node(s:NODE_PLUS)
+  if a:token.type ==# s:TOKEN_MINUS
+    let node = s:Node(s:NODE_MINUS)
+  endif
+  let node.pos = a:token.pos
+  return node
+endfunction
+
 " expr8: expr8[expr1]
 "        expr8[expr1 : expr1]
 "        expr8.name
@@ -4054,7 +4072,11 @@ endfunction
 "        expr8->{lambda}(expr1, ...)
 "        expr8(expr1, ...)
 function! s:ExprParser.parse_expr8() abort
-  let left = self.parse_expr9()
+  return self.parse_postfix(self.parse_expr9())
+endfunction
+
+function! s:ExprParser.parse_postfix(base) abort
+  let left = a:base
   while s:TRUE
     let pos = self.reader.tell()
     let c = self.reader.peek()
diff --git a/go/typedefs.vim b/go/typedefs.vim
index 478ad0a..1e2d17b 100644
--- a/go/typedefs.vim
+++ b/go/typedefs.vim
@@ -140,6 +140,8 @@ call extend(s:typedefs.func, {
 \   'ExprParser.parse_expr7': { 'in': [], 'out': ['*VimNode'] },
 \   'ExprParser.parse_expr8': { 'in': [], 'out': ['*VimNode'] },
 \   'ExprParser.parse_expr9': { 'in': [], 'out': ['*VimNode'] },
+\   'ExprParser.parse_sign': { 'in': ['*ExprToken'], 'out': ['*VimNode'] },
+\   'ExprParser.parse_postfix': { 'in': ['*VimNode'], 'out': ['*VimNode'] },
 \   'ExprParser.parse_rlist': { 'in': [], 'out': ['[]*VimNode'] },
 \   'ExprParser.parse_dot': { 'in': ['*ExprToken', '*VimNode'], 'out': ['*VimNode'] },
 \   'ExprParser.parse_concat': { 'in': ['*ExprToken', '*VimNode'], 'out': ['*VimNode'] },
diff --git a/go/vimlparser.go b/go/vimlparser.go
index 3b41ee7..61d4761 100644
--- a/go/vimlparser.go
+++ b/go/vimlparser.go
@@ -2761,15 +2761,24 @@ func (self *ExprParser) parse_expr7() *VimNode {
 		node.pos = token.pos
 		node.left = self.parse_expr7()
 		return node
-	} else if token.type_ == TOKEN_MINUS {
-		var node = Node(NODE_MINUS)
-		node.pos = token.pos
-		node.left = self.parse_expr7()
-		return node
-	} else if token.type_ == TOKEN_PLUS {
-		var node = Node(NODE_PLUS)
-		node.pos = token.pos
-		node.left = self.parse_expr7()
+	} else if token.type_ == TOKEN_MINUS || token.type_ == TOKEN_PLUS {
+		var node = self.parse_sign(token)
+		var last = node
+		pos = self.reader.tell()
+		token = self.tokenizer.get()
+		for token.type_ == TOKEN_MINUS || token.type_ == TOKEN_PLUS {
+			last.left = self.parse_sign(token)
+			last = last.left
+			pos = self.reader.tell()
+			token = self.tokenizer.get()
+		}
+		self.reader.seek_set(pos)
+		if token.type_ == TOKEN_NUMBER {
+			// The sign of a number comes first: -1->abs() is (-1)->abs()
+			last.left = self.parse_expr9()
+			return self.parse_postfix(node)
+		}
+		last.left = self.parse_expr7()
 		return node
 	} else {
 		self.reader.seek_set(pos)
@@ -2778,6 +2787,15 @@ func (self *ExprParser) parse_expr7() *VimNode {
 	}
 }
 
+func (self *ExprParser) parse_sign(token *ExprToken) *VimNode {
+	var node = Node(NODE_PLUS)
+	if token.type_ == TOKEN_MINUS {
+		node = Node(NODE_MINUS)
+	}
+	node.pos = token.pos
+	return node
+}
+
 // expr8: expr8[expr1]
 //        expr8[expr1 : expr1]
 //        expr8.name
@@ -2786,7 +2804,11 @@ func (self *ExprParser) parse_expr7() *VimNode {
 //        expr8->{lambda}(expr1, ...)
 //        expr8(expr1, ...)
 func (self *ExprParser) parse_expr8() *VimNode {
-	var left = self.parse_expr9()
+	return self.parse_postfix(self.parse_expr9())
+}
+
+func (self *ExprParser) parse_postfix(base *VimNode) *VimNode {
+	var left = base
 	for true {
 		var pos = self.reader.tell()
 		var c = self.reader.peek()
-- 
2.43.0


From 05d7052a257ef67c6ac0a1670a026cd98508eba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:29 +0000
Subject: [PATCH 41/59] fix: white space before "(" ends an operand which is no
 name: echo "a" ("b") has two

---
 autoload/vimlparser.vim | 16 +++++++++++-----
 go/typedefs.vim         |  2 +-
 go/vimlparser.go        | 16 +++++++++++-----
 3 files changed, 23 insertions(+), 11 deletions(-)

diff --git a/autoload/vimlparser.vim b/autoload/vimlparser.vim
index 55812d0..33fbe6b 100644
--- a/autoload/vimlparser.vim
+++ b/autoload/vimlparser.vim
@@ -1519,7 +1519,12 @@ function! s:VimLParser.parse_cmd_call() abort
   if self.ends_excmds(c)
     throw s:Err('E471: Argument required', self.reader.getpos())
   endif
-  let node.left = self.parse_expr()
+  let parser = s:ExprParser.new(self.reader)
+  let node.left = parser.parse()
+  if node.left.type ==# s:NODE_DOT || node.left.type ==# s:NODE_SUBSCRIPT
+    " :call dict.func (args)
+    let node.left = parser.parse_postfix(node.left, s:TRUE)
+  endif
   if node.left.type !=# s:NODE_CALL
     throw s:Err('Not an function call', node.left.pos)
   endif
@@ -4044,7 +4049,7 @@ function! s:ExprParser.parse_expr7() abort
     if token.type ==# s:TOKEN_NUMBER
       " The sign of a number comes first: -1->abs() is (-1)->abs()
       let last.left = self.parse_expr9()
-      return self.parse_postfix(node)
+      return self.parse_postfix(node, s:FALSE)
     endif
     let last.left = self.parse_expr7()
     return node
@@ -4072,10 +4077,11 @@ endfunction
 "        expr8->{lambda}(expr1, ...)
 "        expr8(expr1, ...)
 function! s:ExprParser.parse_expr8() abort
-  return self.parse_postfix(self.parse_expr9())
+  return self.parse_postfix(self.parse_expr9(), s:FALSE)
 endfunction
 
-function! s:ExprParser.parse_postfix(base) abort
+" White space before the "(" is skipped after a name only, or with "spaced".
+function! s:ExprParser.parse_postfix(base, spaced) abort
   let left = a:base
   while s:TRUE
     let pos = self.reader.tell()
@@ -4144,7 +4150,7 @@ function! s:ExprParser.parse_postfix(base) abort
       let node.right = right
       let left = node
       unlet node
-    elseif token.type ==# s:TOKEN_POPEN
+    elseif token.type ==# s:TOKEN_POPEN && (!s:iswhite(c) || a:spaced || left.type ==# s:NODE_IDENTIFIER || left.type ==# s:NODE_CURLYNAME)
       let node = s:Node(s:NODE_CALL)
       let node.pos = token.pos
       let node.left = left
diff --git a/go/typedefs.vim b/go/typedefs.vim
index 1e2d17b..963ef73 100644
--- a/go/typedefs.vim
+++ b/go/typedefs.vim
@@ -141,7 +141,7 @@ call extend(s:typedefs.func, {
 \   'ExprParser.parse_expr8': { 'in': [], 'out': ['*VimNode'] },
 \   'ExprParser.parse_expr9': { 'in': [], 'out': ['*VimNode'] },
 \   'ExprParser.parse_sign': { 'in': ['*ExprToken'], 'out': ['*VimNode'] },
-\   'ExprParser.parse_postfix': { 'in': ['*VimNode'], 'out': ['*VimNode'] },
+\   'ExprParser.parse_postfix': { 'in': ['*VimNode', 'bool'], 'out': ['*VimNode'] },
 \   'ExprParser.parse_rlist': { 'in': [], 'out': ['[]*VimNode'] },
 \   'ExprParser.parse_dot': { 'in': ['*ExprToken', '*VimNode'], 'out': ['*VimNode'] },
 \   'ExprParser.parse_concat': { 'in': ['*ExprToken', '*VimNode'], 'out': ['*VimNode'] },
diff --git a/go/vimlparser.go b/go/vimlparser.go
index 61d4761..cc545e2 100644
--- a/go/vimlparser.go
+++ b/go/vimlparser.go
@@ -1381,7 +1381,12 @@ func (self *VimLParser) parse_cmd_call() {
 	if self.ends_excmds(c) {
 		panic(Err("E471: Argument required", self.reader.getpos()))
 	}
-	node.left = self.parse_expr()
+	var parser = NewExprParser(self.reader)
+	node.left = parser.parse()
+	if node.left.type_ == NODE_DOT || node.left.type_ == NODE_SUBSCRIPT {
+		// :call dict.func (args)
+		node.left = parser.parse_postfix(node.left, true)
+	}
 	if node.left.type_ != NODE_CALL {
 		panic(Err("Not an function call", node.left.pos))
 	}
@@ -2776,7 +2781,7 @@ func (self *ExprParser) parse_expr7() *VimNode {
 		if token.type_ == TOKEN_NUMBER {
 			// The sign of a number comes first: -1->abs() is (-1)->abs()
 			last.left = self.parse_expr9()
-			return self.parse_postfix(node)
+			return self.parse_postfix(node, false)
 		}
 		last.left = self.parse_expr7()
 		return node
@@ -2804,10 +2809,11 @@ func (self *ExprParser) parse_sign(token *ExprToken) *VimNode {
 //        expr8->{lambda}(expr1, ...)
 //        expr8(expr1, ...)
 func (self *ExprParser) parse_expr8() *VimNode {
-	return self.parse_postfix(self.parse_expr9())
+	return self.parse_postfix(self.parse_expr9(), false)
 }
 
-func (self *ExprParser) parse_postfix(base *VimNode) *VimNode {
+// White space before the "(" is skipped after a name only, or with "spaced".
+func (self *ExprParser) parse_postfix(base *VimNode, spaced bool) *VimNode {
 	var left = base
 	for true {
 		var pos = self.reader.tell()
@@ -2874,7 +2880,7 @@ func (self *ExprParser) parse_postfix(base *VimNode) *VimNode {
 			node.left = left
 			node.right = right
 			left = node
-		} else if token.type_ == TOKEN_POPEN {
+		} else if token.type_ == TOKEN_POPEN && (!iswhite(c) || spaced || left.type_ == NODE_IDENTIFIER || left.type_ == NODE_CURLYNAME) {
 			var node = Node(NODE_CALL)
 			node.pos = token.pos
 			node.left = left
-- 
2.43.0


From da1b0123b32e3cf9858f74bf9abd817d5e88e3c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:44 +0000
Subject: [PATCH 42/59] fix: {g:x->len(): 1} is a dictionary

---
 autoload/vimlparser.vim | 4 ++++
 go/vimlparser.go        | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/autoload/vimlparser.vim b/autoload/vimlparser.vim
index 33fbe6b..ea42fa2 100644
--- a/autoload/vimlparser.vim
+++ b/autoload/vimlparser.vim
@@ -4283,6 +4283,10 @@ function! s:ExprParser.parse_expr9() abort
       " token and we can assume it's not lambda.
       let token2 = self.tokenizer.peek()
       let lambda = token2.type ==# s:TOKEN_ARROW || token2.type ==# s:TOKEN_COMMA
+      if token.type ==# s:TOKEN_IDENTIFIER && !s:isargname(token.value)
+        " {g:x->len(): 1}
+        let lambda = s:FALSE
+      endif
     endif
     " fallback to dict or {expr} if true
     let fallback = s:FALSE
diff --git a/go/vimlparser.go b/go/vimlparser.go
index cc545e2..3fd53d8 100644
--- a/go/vimlparser.go
+++ b/go/vimlparser.go
@@ -3012,6 +3012,10 @@ func (self *ExprParser) parse_expr9() *VimNode {
 			// token and we can assume it's not lambda.
 			var token2 = self.tokenizer.peek()
 			lambda = token2.type_ == TOKEN_ARROW || token2.type_ == TOKEN_COMMA
+			if token.type_ == TOKEN_IDENTIFIER && !isargname(token.value) {
+				// {g:x->len(): 1}
+				lambda = false
+			}
 		}
 		// fallback to dict or {expr} if true
 		var fallback = false
-- 
2.43.0


From 7a847020d0d7b7eb16aa1aaea4cf7ba7dbbdaeee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:17 +0000
Subject: [PATCH 43/59] fix: is and isnot are names of arguments too

---
 autoload/vimlparser.vim | 4 ++--
 go/vimlparser.go        | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/autoload/vimlparser.vim b/autoload/vimlparser.vim
index ea42fa2..51e6814 100644
--- a/autoload/vimlparser.vim
+++ b/autoload/vimlparser.vim
@@ -1401,7 +1401,7 @@ function! s:VimLParser.parse_cmd_function() abort
     while s:TRUE
       let varnode = s:Node(s:NODE_IDENTIFIER)
       let token = tokenizer.get()
-      if token.type ==# s:TOKEN_IDENTIFIER
+      if token.type ==# s:TOKEN_IDENTIFIER || token.type ==# s:TOKEN_IS || token.type ==# s:TOKEN_ISNOT
         if !s:isargname(token.value) || token.value ==# 'firstline' || token.value ==# 'lastline'
           throw s:Err(printf('E125: Illegal argument: %s', token.value), token.pos)
         elseif has_key(named, token.value)
@@ -4299,7 +4299,7 @@ function! s:ExprParser.parse_expr9() abort
       while s:TRUE
         if token.type ==# s:TOKEN_ARROW
           break
-        elseif token.type ==# s:TOKEN_IDENTIFIER
+        elseif token.type ==# s:TOKEN_IDENTIFIER || token.type ==# s:TOKEN_IS || token.type ==# s:TOKEN_ISNOT
           if !s:isargname(token.value)
             throw s:Err(printf('E125: Illegal argument: %s', token.value), token.pos)
           elseif has_key(named, token.value)
diff --git a/go/vimlparser.go b/go/vimlparser.go
index 3fd53d8..7201224 100644
--- a/go/vimlparser.go
+++ b/go/vimlparser.go
@@ -1263,7 +1263,7 @@ func (self *VimLParser) parse_cmd_function() {
 		for true {
 			var varnode = Node(NODE_IDENTIFIER)
 			var token = tokenizer.get()
-			if token.type_ == TOKEN_IDENTIFIER {
+			if token.type_ == TOKEN_IDENTIFIER || token.type_ == TOKEN_IS || token.type_ == TOKEN_ISNOT {
 				if !isargname(token.value) || token.value == "firstline" || token.value == "lastline" {
 					panic(Err(viml_printf("E125: Illegal argument: %s", token.value), token.pos))
 				} else if viml_has_key(named, token.value) {
@@ -3028,7 +3028,7 @@ func (self *ExprParser) parse_expr9() *VimNode {
 			for true {
 				if token.type_ == TOKEN_ARROW {
 					break
-				} else if token.type_ == TOKEN_IDENTIFIER {
+				} else if token.type_ == TOKEN_IDENTIFIER || token.type_ == TOKEN_IS || token.type_ == TOKEN_ISNOT {
 					if !isargname(token.value) {
 						panic(Err(viml_printf("E125: Illegal argument: %s", token.value), token.pos))
 					} else if viml_has_key(named, token.value) {
-- 
2.43.0


From 26e863eb83a26867be18473fdfdd9c1ef18e4229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:58 +0000
Subject: [PATCH 44/59] fix: is and isnot are names of variables to assign to

---
 autoload/vimlparser.vim | 3 +++
 go/vimlparser.go        | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/autoload/vimlparser.vim b/autoload/vimlparser.vim
index 51e6814..0f5ecea 100644
--- a/autoload/vimlparser.vim
+++ b/autoload/vimlparser.vim
@@ -4642,6 +4642,9 @@ function! s:LvalueParser.parse_lv9() abort
   elseif token.type ==# s:TOKEN_LT && self.reader.peekn(4) ==? 'SID>'
     call self.reader.seek_set(pos)
     let node = self.parse_identifier()
+  elseif token.type ==# s:TOKEN_IS || token.type ==# s:TOKEN_ISCS || token.type ==# s:TOKEN_ISNOT || token.type ==# s:TOKEN_ISNOTCS
+    call self.reader.seek_set(pos)
+    let node = self.parse_identifier()
   elseif token.type ==# s:TOKEN_ENV
     let node = s:Node(s:NODE_ENV)
     let node.pos = token.pos
diff --git a/go/vimlparser.go b/go/vimlparser.go
index 7201224..44f7b37 100644
--- a/go/vimlparser.go
+++ b/go/vimlparser.go
@@ -3376,6 +3376,9 @@ func (self *LvalueParser) parse_lv9() *VimNode {
 	} else if token.type_ == TOKEN_LT && viml_equalci(self.reader.peekn(4), "SID>") {
 		self.reader.seek_set(pos)
 		node = self.parse_identifier()
+	} else if token.type_ == TOKEN_IS || token.type_ == TOKEN_ISCS || token.type_ == TOKEN_ISNOT || token.type_ == TOKEN_ISNOTCS {
+		self.reader.seek_set(pos)
+		node = self.parse_identifier()
 	} else if token.type_ == TOKEN_ENV {
 		node = Node(NODE_ENV)
 		node.pos = token.pos
-- 
2.43.0


From f66e73b6998951005472e56df2b1d03be512cce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:33 +0000
Subject: [PATCH 45/59] fix: the first argument of :unlet and :lockvar is no
 expression: unlet x isnot has two

---
 autoload/vimlparser.vim | 2 +-
 go/vimlparser.go        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/autoload/vimlparser.vim b/autoload/vimlparser.vim
index 0f5ecea..2b01d8b 100644
--- a/autoload/vimlparser.vim
+++ b/autoload/vimlparser.vim
@@ -2048,7 +2048,7 @@ endfunction
 
 function! s:VimLParser.parse_lvaluelist() abort
   let list = []
-  let node = self.parse_expr()
+  let node = self.parse_lvalue()
   call add(list, node)
   while s:TRUE
     call self.reader.skip_white()
diff --git a/go/vimlparser.go b/go/vimlparser.go
index 44f7b37..d023de9 100644
--- a/go/vimlparser.go
+++ b/go/vimlparser.go
@@ -1883,7 +1883,7 @@ func (self *VimLParser) parse_constlvalue() *VimNode {
 
 func (self *VimLParser) parse_lvaluelist() []*VimNode {
 	var list []*VimNode
-	var node = self.parse_expr()
+	var node = self.parse_lvalue()
 	list = append(list, node)
 	for true {
 		self.reader.skip_white()
-- 
2.43.0


From 08eb9885af05c665fa783735b773c5d198797128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:03 +0000
Subject: [PATCH 46/59] fix: printer: parentheses for a Float after "." and for
 what a sign of a number would take apart

---
 printer/expr.go | 42 ++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 42 insertions(+)

diff --git a/printer/expr.go b/printer/expr.go
index 63e2e60..2e5e9b3 100644
--- a/printer/expr.go
+++ b/printer/expr.go
@@ -2,6 +2,7 @@ package printer
 
 import (
 	"fmt"
+	"strings"
 
 	"github.com/vim-jp/go-vimlparser/ast"
 	"github.com/vim-jp/go-vimlparser/token"
@@ -70,9 +71,32 @@ func (p *printer) binaryExpr(x *ast.BinaryExpr, prec1 int) {
 	p.printWhite(blank)
 	p.token(x.Op)
 	p.printWhite(blank)
+	if x.Op == token.DOT && startsWithFloat(x.Right, prec+1) {
+		// a . 1.2 is a . 1 . 2
+		p.token(token.POPEN)
+		p.expr(x.Right)
+		p.token(token.PCLOSE)
+		return
+	}
 	p.expr1(x.Right, prec+1)
 }
 
+// startsWithFloat returns whether the text of expr, where operators of
+// precedence prec1 are expected, has a Float for its first operand.
+func startsWithFloat(expr ast.Expr, prec1 int) bool {
+	switch x := expr.(type) {
+	case *ast.BinaryExpr:
+		return opprec(x) >= prec1 && startsWithFloat(x.Left, opprec(x))
+	case *ast.UnaryExpr:
+		return opprec(x) >= prec1 && startsWithFloat(x.X, opprec(x))
+	case *ast.SubscriptExpr:
+		return startsWithFloat(x.Left, opprec(x))
+	case *ast.BasicLit:
+		return x.Kind == token.NUMBER && strings.Contains(x.Value, ".")
+	}
+	return false
+}
+
 func (p *printer) unaryExpr(x *ast.UnaryExpr, prec1 int) {
 	prec := opprec(x)
 	if prec < prec1 {
@@ -86,5 +110,23 @@ func (p *printer) unaryExpr(x *ast.UnaryExpr, prec1 int) {
 	}
 	// no parenthesis needed
 	p.token(x.Op)
+	if x.Op != token.NOT && isSubscriptOfNumber(x.X) {
+		// -1[0] is (-1)[0]
+		p.token(token.POPEN)
+		p.expr(x.X)
+		p.token(token.PCLOSE)
+		return
+	}
 	p.expr1(x.X, prec)
 }
+
+func isSubscriptOfNumber(expr ast.Expr) bool {
+	x, ok := expr.(*ast.SubscriptExpr)
+	if !ok {
+		return false
+	}
+	if lit, ok := x.Left.(*ast.BasicLit); ok {
+		return lit.Kind == token.NUMBER
+	}
+	return isSubscriptOfNumber(x.Left)
+}
-- 
2.43.0


From 85109f910ebb643f42f1c43dd83297d8747402af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:54 +0000
Subject: [PATCH 47/59] fix: names end at the second colon, g:x:g:y is g:x :
 g:y; d.key:x has a key

---
 autoload/vimlparser.vim | 9 ++++++++-
 go/vimlfunc.go          | 1 +
 go/vimlparser.go        | 9 ++++++++-
 3 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/autoload/vimlparser.vim b/autoload/vimlparser.vim
index 2b01d8b..e893191 100644
--- a/autoload/vimlparser.vim
+++ b/autoload/vimlparser.vim
@@ -4444,7 +4444,7 @@ function! s:ExprParser.parse_dot(token, left) abort
   endif
   let pos = self.reader.getpos()
   let name = self.reader.read_word()
-  if s:isnamec(self.reader.p(0))
+  if self.reader.p(0) ==# '#' || self.reader.p(0) ==# ':' && name . ':' =~# '^[vgslabwt]:'
     " XXX: foo is str => ok, foo is obj => invalid expression
     " foo.s:bar or foo.bar#baz
     return s:NIL
@@ -4522,6 +4522,9 @@ function! s:ExprParser.parse_curly_parts() abort
       let node.pos = pos
       let node.value = name
       call add(curly_parts, node)
+      if self.reader.peek() ==# ':'
+        break
+      endif
     elseif c ==# '{'
       call self.reader.get()
       let pos = self.reader.getpos()
@@ -4924,6 +4927,10 @@ endfunction
 function! s:StringReader.read_name() abort
   let r = ''
   while s:isnamec(self.peekn(1))
+    if self.peekn(1) ==# ':' && r =~# '^[vgslabwt]:'
+      " g:x:g:y is g:x : g:y
+      break
+    endif
     let r .= self.getn(1)
   endwhile
   return r
diff --git a/go/vimlfunc.go b/go/vimlfunc.go
index 046e3fb..5c1fe08 100644
--- a/go/vimlfunc.go
+++ b/go/vimlfunc.go
@@ -64,6 +64,7 @@ var patVim2Go = map[string]string{
 	"^[A-Za-z_][0-9A-Za-z_]*$": "^[A-Za-z_][0-9A-Za-z_]*$",
 	"^[A-Z]$":                  "^[A-Z]$",
 	"^[a-z]$":                  "^[a-z]$",
+	"^[vgslabwt]:":             "^[vgslabwt]:",
 	"^[vgslabwt]:$\\|^\\([vgslabwt]:\\)\\?[A-Za-z_][0-9A-Za-z_#]*$": "^[vgslabwt]:$|^([vgslabwt]:)?[A-Za-z_][0-9A-Za-z_#]*$",
 	"^[0-7]$":                   "^[0-7]$",
 	"^[0-9A-Fa-f][0-9A-Fa-f]$":  "^[0-9A-Fa-f][0-9A-Fa-f]$",
diff --git a/go/vimlparser.go b/go/vimlparser.go
index d023de9..ac26485 100644
--- a/go/vimlparser.go
+++ b/go/vimlparser.go
@@ -3179,7 +3179,7 @@ func (self *ExprParser) parse_dot(token *ExprToken, left *VimNode) *VimNode {
 	}
 	var pos = self.reader.getpos()
 	var name = self.reader.read_word()
-	if isnamec(self.reader.p(0)) {
+	if self.reader.p(0) == "#" || self.reader.p(0) == ":" && viml_eqregh(name+":", "^[vgslabwt]:") {
 		// XXX: foo is str => ok, foo is obj => invalid expression
 		// foo.s:bar or foo.bar#baz
 		return nil
@@ -3259,6 +3259,9 @@ func (self *ExprParser) parse_curly_parts() []*VimNode {
 			node.pos = pos
 			node.value = name
 			curly_parts = append(curly_parts, node)
+			if self.reader.peek() == ":" {
+				break
+			}
 		} else if c == "{" {
 			self.reader.get()
 			pos = self.reader.getpos()
@@ -3604,6 +3607,10 @@ func (self *StringReader) read_nonwhite() string {
 func (self *StringReader) read_name() string {
 	var r = ""
 	for isnamec(self.peekn(1)) {
+		if self.peekn(1) == ":" && viml_eqregh(r, "^[vgslabwt]:") {
+			// g:x:g:y is g:x : g:y
+			break
+		}
 		r += self.getn(1)
 	}
 	return r
-- 
2.43.0


From 1b27c0779fa0098e2ac6cec82733960528e0f65b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:48 +0000
Subject: [PATCH 48/59] fix: a bar behind :s, :&, :~, :sort, :match and :djump
 begins another command

---
 autoload/vimlparser.vim | 85 +++++++++++++++++++++++++++++++++++++++--
 go/typedefs.vim         |  8 ++++
 go/vimlfunc.go          |  1 +
 go/vimlparser.go        | 85 +++++++++++++++++++++++++++++++++++++++--
 4 files changed, 173 insertions(+), 6 deletions(-)

diff --git a/autoload/vimlparser.vim b/autoload/vimlparser.vim
index e893191..b24ab3e 100644
--- a/autoload/vimlparser.vim
+++ b/autoload/vimlparser.vim
@@ -715,6 +715,16 @@ endfunction
 
 " FIXME:
 function! s:VimLParser.parse_pattern(delimiter) abort
+  let [pattern, endc] = self.read_pattern(a:delimiter)
+  if endc ==# "\n"
+    throw s:Err('E682: Invalid search pattern or delimiter', self.reader.getpos())
+  endif
+  return [pattern, endc]
+endfunction
+
+" The second item is the delimiter if there is one behind the pattern, "\n"
+" if the line ends with a backslash.
+function! s:VimLParser.read_pattern(delimiter) abort
   let pattern = ''
   let endc = ''
   let inbracket = 0
@@ -731,7 +741,8 @@ function! s:VimLParser.parse_pattern(delimiter) abort
     if c ==# '\'
       let c = self.reader.peekn(1)
       if c ==# ''
-        throw s:Err('E682: Invalid search pattern or delimiter', self.reader.getpos())
+        let endc = "\n"
+        break
       endif
       call self.reader.getn(1)
       let pattern .= c
@@ -1129,7 +1140,7 @@ endfunction
 " TODO:
 function! s:VimLParser.parse_cmd_common() abort
   let end = self.reader.getpos()
-  if self.ea.cmd.flags =~# '\<TRLBAR\>' && !self.ea.usefilter
+  if self.ea.cmd.flags =~# '\<TRLBAR\>' && !self.ea.usefilter || self.skip_own_patterns()
     let end = self.separate_nextcmd()
   elseif self.ea.cmd.name ==# '!' || self.ea.cmd.name ==# 'global' || self.ea.cmd.name ==# 'vglobal' || self.ea.usefilter
     while s:TRUE
@@ -1186,7 +1197,7 @@ function! s:VimLParser.separate_nextcmd() abort
       endif
       call self.reader.getn(1)
     elseif c ==# '|' || c ==# "\n" ||
-          \ (c ==# '"' && self.ea.cmd.flags !~# '\<NOTRLCOM\>'
+          \ (c ==# '"' && (self.ea.cmd.flags !~# '\<NOTRLCOM\>' || self.ea.cmd.name ==# 'sort')
           \   && ((self.ea.cmd.name !=# '@' && self.ea.cmd.name !=# '*')
           \       || self.reader.getpos().i !=# self.ea.argpos.i)
           \   && (self.ea.cmd.name !=# 'redir'
@@ -2156,6 +2167,74 @@ function! s:VimLParser.parse_wincmd() abort
   call self.add_node(node)
 endfunction
 
+" Commands without TRLBAR which find the bar behind their patterns themselves:
+" skips the patterns.  Returns false for the commands a bar is an argument of.
+function! s:VimLParser.skip_own_patterns() abort
+  let name = self.ea.cmd.name
+  if name ==# 'substitute' || name ==# 'smagic' || name ==# 'snomagic'
+    call self.skip_substitute()
+    return s:TRUE
+  elseif name ==# '&' || name ==# '~'
+    return s:TRUE
+  elseif name ==# 'sort'
+    while s:iswhite(self.reader.peekn(1)) || s:isalpha(self.reader.peekn(1))
+      call self.reader.getn(1)
+    endwhile
+    if !self.ends_excmds(self.reader.peekn(1))
+      call self.read_pattern(self.reader.getn(1))
+    endif
+    return s:TRUE
+  elseif name ==# 'match'
+    let pos = self.reader.tell()
+    if self.reader.read_alpha() ==? 'none' && (s:iswhite(self.reader.peekn(1)) || self.ends_excmds(self.reader.peekn(1)))
+      return s:TRUE
+    endif
+    call self.reader.seek_set(pos)
+    if !self.ends_excmds(self.reader.peekn(1))
+      call self.reader.read_nonwhite()
+      call self.reader.skip_white()
+      if self.reader.peekn(1) !=# ''
+        call self.read_pattern(self.reader.getn(1))
+      endif
+    endif
+    return s:TRUE
+  elseif name =~# '^[di]\(jump\|list\|search\|split\)$' || name ==# 'psearch'
+    let pos = self.reader.tell()
+    call self.reader.read_digit()
+    call self.reader.skip_white()
+    if self.reader.peekn(1) ==# '/'
+      call self.read_pattern(self.reader.getn(1))
+      return s:TRUE
+    endif
+    call self.reader.seek_set(pos)
+  endif
+  return s:FALSE
+endfunction
+
+" :s/pattern/string/ without the flags
+function! s:VimLParser.skip_substitute() abort
+  let c = self.reader.peekn(1)
+  if c ==# '' || s:isalnum(c) || stridx('|"', c) >= 0
+    " only flags
+    return
+  endif
+  call self.reader.getn(1)
+  if c ==# '\'
+    " \/ \? and \&: the last pattern
+    let c = self.reader.getn(1)
+  else
+    call self.read_pattern(c)
+  endif
+  while s:TRUE
+    let c2 = self.reader.getn(1)
+    if c2 ==# '' || c2 ==# c
+      break
+    elseif c2 ==# '\'
+      call self.reader.getn(1)
+    endif
+  endwhile
+endfunction
+
 " FIXME: validate argument
 function! s:VimLParser.parse_cmd_syntax() abort
   let end = self.reader.getpos()
diff --git a/go/typedefs.vim b/go/typedefs.vim
index 963ef73..1409b46 100644
--- a/go/typedefs.vim
+++ b/go/typedefs.vim
@@ -49,6 +49,14 @@ call extend(s:typedefs.func, {
 \     'in': ['string'],
 \     'out': ['string', 'string'],
 \   },
+\   'VimLParser.read_pattern': {
+\     'in': ['string'],
+\     'out': ['string', 'string'],
+\   },
+\   'VimLParser.skip_own_patterns': {
+\     'in': [],
+\     'out': ['bool'],
+\   },
 \   'VimLParser.find_command': {
 \     'in': [],
 \     'out': ['*Cmd'],
diff --git a/go/vimlfunc.go b/go/vimlfunc.go
index 5c1fe08..6391f1c 100644
--- a/go/vimlfunc.go
+++ b/go/vimlfunc.go
@@ -66,6 +66,7 @@ var patVim2Go = map[string]string{
 	"^[a-z]$":                  "^[a-z]$",
 	"^[vgslabwt]:":             "^[vgslabwt]:",
 	"^[vgslabwt]:$\\|^\\([vgslabwt]:\\)\\?[A-Za-z_][0-9A-Za-z_#]*$": "^[vgslabwt]:$|^([vgslabwt]:)?[A-Za-z_][0-9A-Za-z_#]*$",
+	"^[di]\\(jump\\|list\\|search\\|split\\)$":                      "^[di](jump|list|search|split)$",
 	"^[0-7]$":                   "^[0-7]$",
 	"^[0-9A-Fa-f][0-9A-Fa-f]$":  "^[0-9A-Fa-f][0-9A-Fa-f]$",
 	"^\\.[0-9A-Fa-f]$":          "^\\.[0-9A-Fa-f]$",
diff --git a/go/vimlparser.go b/go/vimlparser.go
index ac26485..1165473 100644
--- a/go/vimlparser.go
+++ b/go/vimlparser.go
@@ -618,6 +618,16 @@ func (self *VimLParser) parse_range() {
 
 // FIXME:
 func (self *VimLParser) parse_pattern(delimiter string) (string, string) {
+	var pattern, endc = self.read_pattern(delimiter)
+	if endc == "\n" {
+		panic(Err("E682: Invalid search pattern or delimiter", self.reader.getpos()))
+	}
+	return pattern, endc
+}
+
+// The second item is the delimiter if there is one behind the pattern, "\n"
+// if the line ends with a backslash.
+func (self *VimLParser) read_pattern(delimiter string) (string, string) {
 	var pattern = ""
 	var endc = ""
 	var inbracket = 0
@@ -634,7 +644,8 @@ func (self *VimLParser) parse_pattern(delimiter string) (string, string) {
 		if c == "\\" {
 			c = self.reader.peekn(1)
 			if c == "" {
-				panic(Err("E682: Invalid search pattern or delimiter", self.reader.getpos()))
+				endc = "\n"
+				break
 			}
 			self.reader.getn(1)
 			pattern += c
@@ -1003,7 +1014,7 @@ func (self *VimLParser) parse_cmd_modifier_range() {
 // TODO:
 func (self *VimLParser) parse_cmd_common() {
 	var end = self.reader.getpos()
-	if viml_eqregh(self.ea.cmd.flags, "\\<TRLBAR\\>") && !self.ea.usefilter {
+	if viml_eqregh(self.ea.cmd.flags, "\\<TRLBAR\\>") && !self.ea.usefilter || self.skip_own_patterns() {
 		end = self.separate_nextcmd()
 	} else if self.ea.cmd.name == "!" || self.ea.cmd.name == "global" || self.ea.cmd.name == "vglobal" || self.ea.usefilter {
 		for true {
@@ -1060,7 +1071,7 @@ func (self *VimLParser) separate_nextcmd() *pos {
 				panic(Err(viml_printf("unexpected character: %s", c), self.reader.getpos()))
 			}
 			self.reader.getn(1)
-		} else if c == "|" || c == "\n" || (c == "\"" && !viml_eqregh(self.ea.cmd.flags, "\\<NOTRLCOM\\>") && ((self.ea.cmd.name != "@" && self.ea.cmd.name != "*") || self.reader.getpos().i != self.ea.argpos.i) && (self.ea.cmd.name != "redir" || self.reader.getpos().i != self.ea.argpos.i+1 || pc != "@")) {
+		} else if c == "|" || c == "\n" || (c == "\"" && (!viml_eqregh(self.ea.cmd.flags, "\\<NOTRLCOM\\>") || self.ea.cmd.name == "sort") && ((self.ea.cmd.name != "@" && self.ea.cmd.name != "*") || self.reader.getpos().i != self.ea.argpos.i) && (self.ea.cmd.name != "redir" || self.reader.getpos().i != self.ea.argpos.i+1 || pc != "@")) {
 			var has_cpo_bar = false
 			// &cpoptions =~ 'b'
 			if (!has_cpo_bar || !viml_eqregh(self.ea.cmd.flags, "\\<USECTRLV\\>")) && pc == "\\" {
@@ -1990,6 +2001,74 @@ func (self *VimLParser) parse_wincmd() {
 	self.add_node(node)
 }
 
+// Commands without TRLBAR which find the bar behind their patterns themselves:
+// skips the patterns.  Returns false for the commands a bar is an argument of.
+func (self *VimLParser) skip_own_patterns() bool {
+	var name = self.ea.cmd.name
+	if name == "substitute" || name == "smagic" || name == "snomagic" {
+		self.skip_substitute()
+		return true
+	} else if name == "&" || name == "~" {
+		return true
+	} else if name == "sort" {
+		for iswhite(self.reader.peekn(1)) || isalpha(self.reader.peekn(1)) {
+			self.reader.getn(1)
+		}
+		if !self.ends_excmds(self.reader.peekn(1)) {
+			self.read_pattern(self.reader.getn(1))
+		}
+		return true
+	} else if name == "match" {
+		var pos = self.reader.tell()
+		if viml_equalci(self.reader.read_alpha(), "none") && (iswhite(self.reader.peekn(1)) || self.ends_excmds(self.reader.peekn(1))) {
+			return true
+		}
+		self.reader.seek_set(pos)
+		if !self.ends_excmds(self.reader.peekn(1)) {
+			self.reader.read_nonwhite()
+			self.reader.skip_white()
+			if self.reader.peekn(1) != "" {
+				self.read_pattern(self.reader.getn(1))
+			}
+		}
+		return true
+	} else if viml_eqregh(name, "^[di]\\(jump\\|list\\|search\\|split\\)$") || name == "psearch" {
+		var pos = self.reader.tell()
+		self.reader.read_digit()
+		self.reader.skip_white()
+		if self.reader.peekn(1) == "/" {
+			self.read_pattern(self.reader.getn(1))
+			return true
+		}
+		self.reader.seek_set(pos)
+	}
+	return false
+}
+
+// :s/pattern/string/ without the flags
+func (self *VimLParser) skip_substitute() {
+	var c = self.reader.peekn(1)
+	if c == "" || isalnum(c) || viml_stridx("|\"", c) >= 0 {
+		// only flags
+		return
+	}
+	self.reader.getn(1)
+	if c == "\\" {
+		// \/ \? and \&: the last pattern
+		c = self.reader.getn(1)
+	} else {
+		self.read_pattern(c)
+	}
+	for true {
+		var c2 = self.reader.getn(1)
+		if c2 == "" || c2 == c {
+			break
+		} else if c2 == "\\" {
+			self.reader.getn(1)
+		}
+	}
+}
+
 // FIXME: validate argument
 func (self *VimLParser) parse_cmd_syntax() {
 	var end = self.reader.getpos()
-- 
2.43.0


From ad9db0b3f60bbb00c082d08fbb7864da54d6491c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:49 +0000
Subject: [PATCH 49/59] fix: lines of text follow :change as they do :append

---
 autoload/vimlparser.vim | 2 +-
 go/builtin_commands.go  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/autoload/vimlparser.vim b/autoload/vimlparser.vim
index b24ab3e..d8daae5 100644
--- a/autoload/vimlparser.vim
+++ b/autoload/vimlparser.vim
@@ -2318,7 +2318,7 @@ let s:VimLParser.builtin_commands = [
       \ {'name': 'buffers', 'minlen': 7, 'flags': 'BANG|TRLBAR|CMDWIN', 'parser': 'parse_cmd_common'},
       \ {'name': 'bunload', 'minlen': 3, 'flags': 'BANG|RANGE|NOTADR|BUFNAME|COUNT|EXTRA|TRLBAR', 'parser': 'parse_cmd_common'},
       \ {'name': 'bwipeout', 'minlen': 2, 'flags': 'BANG|RANGE|NOTADR|BUFNAME|BUFUNL|COUNT|EXTRA|TRLBAR', 'parser': 'parse_cmd_common'},
-      \ {'name': 'change', 'minlen': 1, 'flags': 'BANG|WHOLEFOLD|RANGE|COUNT|TRLBAR|CMDWIN|MODIFY', 'parser': 'parse_cmd_common'},
+      \ {'name': 'change', 'minlen': 1, 'flags': 'BANG|WHOLEFOLD|RANGE|COUNT|TRLBAR|CMDWIN|MODIFY', 'parser': 'parse_cmd_append'},
       \ {'name': 'cNext', 'minlen': 2, 'flags': 'RANGE|NOTADR|COUNT|TRLBAR|BANG', 'parser': 'parse_cmd_common'},
       \ {'name': 'cNfile', 'minlen': 3, 'flags': 'RANGE|NOTADR|COUNT|TRLBAR|BANG', 'parser': 'parse_cmd_common'},
       \ {'name': 'cabbrev', 'minlen': 2, 'flags': 'EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN', 'parser': 'parse_cmd_common'},
diff --git a/go/builtin_commands.go b/go/builtin_commands.go
index 9ba4b19..b50662f 100644
--- a/go/builtin_commands.go
+++ b/go/builtin_commands.go
@@ -60,7 +60,7 @@ var builtin_commands = []*Cmd{
 	{flags: "BANG|TRLBAR|CMDWIN", minlen: 7, name: "buffers", parser: "parse_cmd_common"},
 	{flags: "BANG|RANGE|NOTADR|BUFNAME|COUNT|EXTRA|TRLBAR", minlen: 3, name: "bunload", parser: "parse_cmd_common"},
 	{flags: "BANG|RANGE|NOTADR|BUFNAME|BUFUNL|COUNT|EXTRA|TRLBAR", minlen: 2, name: "bwipeout", parser: "parse_cmd_common"},
-	{flags: "BANG|WHOLEFOLD|RANGE|COUNT|TRLBAR|CMDWIN|MODIFY", minlen: 1, name: "change", parser: "parse_cmd_common"},
+	{flags: "BANG|WHOLEFOLD|RANGE|COUNT|TRLBAR|CMDWIN|MODIFY", minlen: 1, name: "change", parser: "parse_cmd_append"},
 	{flags: "RANGE|NOTADR|COUNT|TRLBAR|BANG", minlen: 2, name: "cNext", parser: "parse_cmd_common"},
 	{flags: "RANGE|NOTADR|COUNT|TRLBAR|BANG", minlen: 3, name: "cNfile", parser: "parse_cmd_common"},
 	{flags: "EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN", minlen: 2, name: "cabbrev", parser: "parse_cmd_common"},
-- 
2.43.0


From db340c7e9e9599b31b91ee77c40c22a708e5b0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:28 +0000
Subject: [PATCH 50/59] fix: :pyx and :pythonx take the lines of << as :python3
 does

---
 autoload/vimlparser.vim | 4 ++--
 go/builtin_commands.go  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/autoload/vimlparser.vim b/autoload/vimlparser.vim
index d8daae5..310f489 100644
--- a/autoload/vimlparser.vim
+++ b/autoload/vimlparser.vim
@@ -2816,9 +2816,9 @@ let s:VimLParser.builtin_commands = [
       \ {'flags': 'BANG|FILE1|NEEDARG|TRLBAR|SBOXOK|CMDWIN', 'minlen': 2, 'name': 'packadd', 'parser': 'parse_cmd_common'},
       \ {'flags': 'BANG|TRLBAR|SBOXOK|CMDWIN', 'minlen': 5, 'name': 'packloadall', 'parser': 'parse_cmd_common'},
       \ {'flags': 'TRLBAR|CMDWIN|SBOXOK', 'minlen': 3, 'name': 'smile', 'parser': 'parse_cmd_common'},
-      \ {'flags': 'RANGE|EXTRA|NEEDARG|CMDWIN', 'minlen': 3, 'name': 'pyx', 'parser': 'parse_cmd_common'},
+      \ {'flags': 'RANGE|EXTRA|NEEDARG|CMDWIN', 'minlen': 3, 'name': 'pyx', 'parser': 'parse_cmd_python3'},
       \ {'flags': 'RANGE|DFLALL|EXTRA|NEEDARG|CMDWIN', 'minlen': 4, 'name': 'pyxdo', 'parser': 'parse_cmd_common'},
-      \ {'flags': 'RANGE|EXTRA|NEEDARG|CMDWIN', 'minlen': 7, 'name': 'pythonx', 'parser': 'parse_cmd_common'},
+      \ {'flags': 'RANGE|EXTRA|NEEDARG|CMDWIN', 'minlen': 7, 'name': 'pythonx', 'parser': 'parse_cmd_python3'},
       \ {'flags': 'RANGE|FILE1|NEEDARG|CMDWIN', 'minlen': 4, 'name': 'pyxfile', 'parser': 'parse_cmd_common'},
       \ {'flags': 'RANGE|BANG|FILES|CMDWIN', 'minlen': 3, 'name': 'terminal', 'parser': 'parse_cmd_common'},
       \ {'flags': 'EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN', 'minlen': 3, 'name': 'tmap', 'parser': 'parse_cmd_common'},
diff --git a/go/builtin_commands.go b/go/builtin_commands.go
index b50662f..5c6c26a 100644
--- a/go/builtin_commands.go
+++ b/go/builtin_commands.go
@@ -557,9 +557,9 @@ var builtin_commands = []*Cmd{
 	{flags: "BANG|FILE1|NEEDARG|TRLBAR|SBOXOK|CMDWIN", minlen: 2, name: "packadd", parser: "parse_cmd_common"},
 	{flags: "BANG|TRLBAR|SBOXOK|CMDWIN", minlen: 5, name: "packloadall", parser: "parse_cmd_common"},
 	{flags: "TRLBAR|CMDWIN|SBOXOK", minlen: 3, name: "smile", parser: "parse_cmd_common"},
-	{flags: "RANGE|EXTRA|NEEDARG|CMDWIN", minlen: 3, name: "pyx", parser: "parse_cmd_common"},
+	{flags: "RANGE|EXTRA|NEEDARG|CMDWIN", minlen: 3, name: "pyx", parser: "parse_cmd_python3"},
 	{flags: "RANGE|DFLALL|EXTRA|NEEDARG|CMDWIN", minlen: 4, name: "pyxdo", parser: "parse_cmd_common"},
-	{flags: "RANGE|EXTRA|NEEDARG|CMDWIN", minlen: 7, name: "pythonx", parser: "parse_cmd_common"},
+	{flags: "RANGE|EXTRA|NEEDARG|CMDWIN", minlen: 7, name: "pythonx", parser: "parse_cmd_python3"},
 	{flags: "RANGE|FILE1|NEEDARG|CMDWIN", minlen: 4, name: "pyxfile", parser: "parse_cmd_common"},
 	{flags: "RANGE|BANG|FILES|CMDWIN", minlen: 3, name: "terminal", parser: "parse_cmd_common"},
 	{flags: "EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN", minlen: 3, name: "tmap", parser: "parse_cmd_common"},
-- 
2.43.0


From 6d8e4dcf432bcf17ea71289a2ad8b51e9b28c0bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:52 +0000
Subject: [PATCH 51/59] fix: a bar ends :help as in :help x | only

---
 autoload/vimlparser.vim | 6 ++++++
 go/vimlparser.go        | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/autoload/vimlparser.vim b/autoload/vimlparser.vim
index 310f489..a31ce23 100644
--- a/autoload/vimlparser.vim
+++ b/autoload/vimlparser.vim
@@ -2207,6 +2207,12 @@ function! s:VimLParser.skip_own_patterns() abort
       return s:TRUE
     endif
     call self.reader.seek_set(pos)
+  elseif name ==# 'help'
+    " a bar ends it except for those of :help | and :help ||
+    while self.reader.peekn(1) !=# '' && (self.reader.peekn(1) !=# '|' || self.reader.peekn(2) ==# '|' || self.reader.peekn(2) ==# '||')
+      call self.reader.getn(1)
+    endwhile
+    return s:TRUE
   endif
   return s:FALSE
 endfunction
diff --git a/go/vimlparser.go b/go/vimlparser.go
index 1165473..8ddab6d 100644
--- a/go/vimlparser.go
+++ b/go/vimlparser.go
@@ -2041,6 +2041,12 @@ func (self *VimLParser) skip_own_patterns() bool {
 			return true
 		}
 		self.reader.seek_set(pos)
+	} else if name == "help" {
+		// a bar ends it except for those of :help | and :help ||
+		for self.reader.peekn(1) != "" && (self.reader.peekn(1) != "|" || self.reader.peekn(2) == "|" || self.reader.peekn(2) == "||") {
+			self.reader.getn(1)
+		}
+		return true
 	}
 	return false
 }
-- 
2.43.0


From 1108def93e0758b5b01d2a895568ebc1a107e34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:14 +0000
Subject: [PATCH 52/59] fix: :filter is a modifier: the command behind its
 pattern is a command of its own

---
 autoload/vimlparser.vim | 17 ++++++++++++++++-
 go/typedefs.vim         |  4 ++++
 go/vimlparser.go        | 20 ++++++++++++++++++--
 3 files changed, 38 insertions(+), 3 deletions(-)

diff --git a/autoload/vimlparser.vim b/autoload/vimlparser.vim
index a31ce23..e1dde0b 100644
--- a/autoload/vimlparser.vim
+++ b/autoload/vimlparser.vim
@@ -571,6 +571,20 @@ function! s:VimLParser.parse_command_modifiers() abort
       call add(modifiers, {'name': 'botright'})
     elseif stridx('confirm', k) ==# 0 && len(k) >= 4 " conf\%[irm]
       call add(modifiers, {'name': 'confirm'})
+    elseif stridx('filter', k) ==# 0 && len(k) >= 4 " filt\%[er]
+      let bang = 0
+      if c ==# '!'
+        let bang = 1
+        call self.reader.get()
+        call self.reader.skip_white()
+      endif
+      let start = self.reader.getpos()
+      if self.ends_excmds(self.reader.peekn(1)) || !self.skip_vimgrep_pat() || self.reader.peekn(1) ==# ''
+        " :filter without a pattern or a command
+        call self.reader.seek_set(pos)
+        break
+      endif
+      call add(modifiers, {'name': 'filter', 'bang': bang, 'pattern': self.reader.getstr(start, self.reader.getpos())})
     elseif stridx('keepmarks', k) ==# 0 && len(k) >= 3 " kee\%[pmarks]
       call add(modifiers, {'name': 'keepmarks'})
     elseif stridx('keepalt', k) ==# 0 && len(k) >= 5 " keepa\%[lt]
@@ -1231,12 +1245,13 @@ function! s:VimLParser.skip_vimgrep_pat() abort
     let c = self.reader.getn(1)
     let [_, endc] = self.parse_pattern(c)
     if c !=# endc
-      return
+      return s:FALSE
     endif
     while self.reader.p(0) ==# 'g' || self.reader.p(0) ==# 'j'
       call self.reader.getn(1)
     endwhile
   endif
+  return s:TRUE
 endfunction
 
 function! s:VimLParser.parse_cmd_append() abort
diff --git a/go/typedefs.vim b/go/typedefs.vim
index 1409b46..b8aaeb4 100644
--- a/go/typedefs.vim
+++ b/go/typedefs.vim
@@ -53,6 +53,10 @@ call extend(s:typedefs.func, {
 \     'in': ['string'],
 \     'out': ['string', 'string'],
 \   },
+\   'VimLParser.skip_vimgrep_pat': {
+\     'in': [],
+\     'out': ['bool'],
+\   },
 \   'VimLParser.skip_own_patterns': {
 \     'in': [],
 \     'out': ['bool'],
diff --git a/go/vimlparser.go b/go/vimlparser.go
index 8ddab6d..c654e48 100644
--- a/go/vimlparser.go
+++ b/go/vimlparser.go
@@ -466,6 +466,21 @@ func (self *VimLParser) parse_command_modifiers() {
 		} else if viml_stridx("confirm", k) == 0 && len(k) >= 4 {
 			// conf\%[irm]
 			modifiers = append(modifiers, map[string]interface{}{"name": "confirm"})
+		} else if viml_stridx("filter", k) == 0 && len(k) >= 4 {
+			// filt\%[er]
+			var bang = 0
+			if c == "!" {
+				bang = 1
+				self.reader.get()
+				self.reader.skip_white()
+			}
+			var start = self.reader.getpos()
+			if self.ends_excmds(self.reader.peekn(1)) || !self.skip_vimgrep_pat() || self.reader.peekn(1) == "" {
+				// :filter without a pattern or a command
+				self.reader.seek_set(pos)
+				break
+			}
+			modifiers = append(modifiers, map[string]interface{}{"name": "filter", "bang": bang, "pattern": self.reader.getstr(start, self.reader.getpos())})
 		} else if viml_stridx("keepmarks", k) == 0 && len(k) >= 3 {
 			// kee\%[pmarks]
 			modifiers = append(modifiers, map[string]interface{}{"name": "keepmarks"})
@@ -1091,7 +1106,7 @@ func (self *VimLParser) separate_nextcmd() *pos {
 }
 
 // FIXME
-func (self *VimLParser) skip_vimgrep_pat() {
+func (self *VimLParser) skip_vimgrep_pat() bool {
 	if self.reader.peekn(1) == "" {
 		// pass
 	} else if isidc(self.reader.peekn(1)) {
@@ -1102,12 +1117,13 @@ func (self *VimLParser) skip_vimgrep_pat() {
 		var c = self.reader.getn(1)
 		var _, endc = self.parse_pattern(c)
 		if c != endc {
-			return
+			return false
 		}
 		for self.reader.p(0) == "g" || self.reader.p(0) == "j" {
 			self.reader.getn(1)
 		}
 	}
+	return true
 }
 
 func (self *VimLParser) parse_cmd_append() {
-- 
2.43.0


From ed4239238c4d83210d8566beecc6e0e46a0551b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:18 +0000
Subject: [PATCH 53/59] fix: a bar and a comment end :let and :const which list
 variables

---
 autoload/vimlparser.vim | 21 +++++++++++++++++----
 go/vimlparser.go        | 21 +++++++++++++++++----
 2 files changed, 34 insertions(+), 8 deletions(-)

diff --git a/autoload/vimlparser.vim b/autoload/vimlparser.vim
index e1dde0b..7935ff5 100644
--- a/autoload/vimlparser.vim
+++ b/autoload/vimlparser.vim
@@ -1619,7 +1619,7 @@ function! s:VimLParser.parse_cmd_let() abort
   " :let
   if self.ends_excmds(self.reader.peek())
     call self.reader.seek_set(pos)
-    call self.parse_cmd_common()
+    call self.parse_cmd_listvars()
     return
   endif
 
@@ -1637,7 +1637,7 @@ function! s:VimLParser.parse_cmd_let() abort
   " :let {var-name} ..
   if self.ends_excmds(s1) || (s2 !=# '+=' && s2 !=# '-=' && s2 !=# '.=' && s2 !=# '..=' && s2 !=# '*=' && s2 !=# '/=' && s2 !=# '%=' && s2 !=# '=<<' && s1 !=# '=')
     call self.reader.seek_set(pos)
-    call self.parse_cmd_common()
+    call self.parse_cmd_listvars()
     return
   endif
 
@@ -1679,7 +1679,7 @@ function! s:VimLParser.parse_cmd_const() abort
   " :const
   if self.ends_excmds(self.reader.peek())
     call self.reader.seek_set(pos)
-    call self.parse_cmd_common()
+    call self.parse_cmd_listvars()
     return
   endif
 
@@ -1690,7 +1690,7 @@ function! s:VimLParser.parse_cmd_const() abort
   " :const {var-name}
   if self.ends_excmds(s1) || s1 !=# '='
     call self.reader.seek_set(pos)
-    call self.parse_cmd_common()
+    call self.parse_cmd_listvars()
     return
   endif
 
@@ -1707,6 +1707,19 @@ function! s:VimLParser.parse_cmd_const() abort
   call self.add_node(node)
 endfunction
 
+" :let and :const which list variables
+function! s:VimLParser.parse_cmd_listvars() abort
+  call self.reader.skip_white()
+  if !self.ends_excmds(self.reader.peek())
+    call self.parse_lvaluelist()
+  endif
+  let node = s:Node(s:NODE_EXCMD)
+  let node.pos = self.ea.cmdpos
+  let node.ea = self.ea
+  let node.str = self.reader.getstr(self.ea.linepos, self.reader.getpos())
+  call self.add_node(node)
+endfunction
+
 function! s:VimLParser.parse_cmd_unlet() abort
   let node = s:Node(s:NODE_UNLET)
   let node.pos = self.ea.cmdpos
diff --git a/go/vimlparser.go b/go/vimlparser.go
index c654e48..b1f98eb 100644
--- a/go/vimlparser.go
+++ b/go/vimlparser.go
@@ -1479,7 +1479,7 @@ func (self *VimLParser) parse_cmd_let() {
 	// :let
 	if self.ends_excmds(self.reader.peek()) {
 		self.reader.seek_set(pos)
-		self.parse_cmd_common()
+		self.parse_cmd_listvars()
 		return
 	}
 	var lhs = self.parse_letlhs()
@@ -1495,7 +1495,7 @@ func (self *VimLParser) parse_cmd_let() {
 	// :let {var-name} ..
 	if self.ends_excmds(s1) || (s2 != "+=" && s2 != "-=" && s2 != ".=" && s2 != "..=" && s2 != "*=" && s2 != "/=" && s2 != "%=" && s2 != "=<<" && s1 != "=") {
 		self.reader.seek_set(pos)
-		self.parse_cmd_common()
+		self.parse_cmd_listvars()
 		return
 	}
 	// :let left op right
@@ -1535,7 +1535,7 @@ func (self *VimLParser) parse_cmd_const() {
 	// :const
 	if self.ends_excmds(self.reader.peek()) {
 		self.reader.seek_set(pos)
-		self.parse_cmd_common()
+		self.parse_cmd_listvars()
 		return
 	}
 	var lhs = self.parse_constlhs()
@@ -1544,7 +1544,7 @@ func (self *VimLParser) parse_cmd_const() {
 	// :const {var-name}
 	if self.ends_excmds(s1) || s1 != "=" {
 		self.reader.seek_set(pos)
-		self.parse_cmd_common()
+		self.parse_cmd_listvars()
 		return
 	}
 	// :const left op right
@@ -1560,6 +1560,19 @@ func (self *VimLParser) parse_cmd_const() {
 	self.add_node(node)
 }
 
+// :let and :const which list variables
+func (self *VimLParser) parse_cmd_listvars() {
+	self.reader.skip_white()
+	if !self.ends_excmds(self.reader.peek()) {
+		self.parse_lvaluelist()
+	}
+	var node = Node(NODE_EXCMD)
+	node.pos = self.ea.cmdpos
+	node.ea = self.ea
+	node.str = self.reader.getstr(self.ea.linepos, self.reader.getpos())
+	self.add_node(node)
+}
+
 func (self *VimLParser) parse_cmd_unlet() {
 	var node = Node(NODE_UNLET)
 	node.pos = self.ea.cmdpos
-- 
2.43.0


From 47816fb30903300f764805f94ccdb7d8d3802777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:14 +0000
Subject: [PATCH 54/59] fix: patterns of :syntax may have any delimiter and
 hold blanks and bars; after \V a [ is a character

---
 autoload/vimlparser.vim | 170 +++++++++++++++++++++++++++++++++++-----
 go/typedefs.vim         |   2 +
 go/vimlfunc.go          |   2 +
 go/vimlparser.go        | 170 +++++++++++++++++++++++++++++++++++-----
 4 files changed, 308 insertions(+), 36 deletions(-)

diff --git a/autoload/vimlparser.vim b/autoload/vimlparser.vim
index 7935ff5..1eb8da4 100644
--- a/autoload/vimlparser.vim
+++ b/autoload/vimlparser.vim
@@ -742,6 +742,7 @@ function! s:VimLParser.read_pattern(delimiter) abort
   let pattern = ''
   let endc = ''
   let inbracket = 0
+  let magic = s:TRUE
   while s:TRUE
     let c = self.reader.getn(1)
     if c ==# ''
@@ -760,13 +761,20 @@ function! s:VimLParser.read_pattern(delimiter) abort
       endif
       call self.reader.getn(1)
       let pattern .= c
-    elseif c ==# '[' && inbracket ==# 0
-      let inbracket = 1
-      if self.reader.peekn(1) ==# '^'
-        let pattern .= self.reader.getn(1)
+      if inbracket ==# 0
+        if c ==# 'V' || c ==# 'M'
+          let magic = s:FALSE
+        elseif c ==# 'v' || c ==# 'm'
+          let magic = s:TRUE
+        elseif c ==# '[' && !magic
+          let pattern .= self.read_bracket()
+          let inbracket = 1
+        endif
       endif
-      if self.reader.peekn(1) ==# ']'
-        let pattern .= self.reader.getn(1)
+    elseif c ==# '[' && inbracket ==# 0
+      if magic
+        let pattern .= self.read_bracket()
+        let inbracket = 1
       endif
     elseif c ==# '[' && self.reader.peekn(12) =~# '^\(:\a\+:\|=.=\|\..\.\)\]'
       let inbracket += 1
@@ -777,6 +785,18 @@ function! s:VimLParser.read_pattern(delimiter) abort
   return [pattern, endc]
 endfunction
 
+" the ^ and the ] which a collection may begin with
+function! s:VimLParser.read_bracket() abort
+  let s = ''
+  if self.reader.peekn(1) ==# '^'
+    let s .= self.reader.getn(1)
+  endif
+  if self.reader.peekn(1) ==# ']'
+    let s .= self.reader.getn(1)
+  endif
+  return s
+endfunction
+
 function! s:VimLParser.parse_command() abort
   call self.reader.skip_white_and_colon()
 
@@ -2271,27 +2291,141 @@ endfunction
 
 " FIXME: validate argument
 function! s:VimLParser.parse_cmd_syntax() abort
+  call self.reader.skip_white()
+  let name = self.reader.read_alpha()
+  call self.reader.skip_white()
+  if name ==# 'sync'
+    let name = self.skip_syntax_sync()
+  endif
+  if name ==? 'match'
+    call self.skip_syntax_group()
+    call self.skip_syntax_options()
+    call self.skip_syntax_pattern()
+    call self.skip_syntax_options()
+  elseif name ==? 'region'
+    call self.skip_syntax_group()
+    call self.skip_syntax_region()
+  elseif name ==# 'keyword'
+    call self.skip_syntax_group()
+    while !self.ends_excmds(self.reader.peekn(1))
+      call self.skip_syntax_keyword()
+    endwhile
+  endif
   let end = self.reader.getpos()
-  while s:TRUE
+  while !self.ends_excmds(self.reader.peekn(1))
+    call self.reader.getn(1)
     let end = self.reader.getpos()
-    let c = self.reader.peek()
-    if c ==# '/' || c ==# "'" || c ==# '"'
+  endwhile
+  let node = s:Node(s:NODE_EXCMD)
+  let node.pos = self.ea.cmdpos
+  let node.ea = self.ea
+  let node.str = self.reader.getstr(self.ea.linepos, end)
+  call self.add_node(node)
+endfunction
+
+" the arguments of :syntax sync up to those of match or region
+function! s:VimLParser.skip_syntax_sync() abort
+  while !self.ends_excmds(self.reader.peekn(1))
+    let name = self.reader.read_nonwhite()
+    call self.reader.skip_white()
+    if name ==? 'match' || name ==? 'region'
+      return name
+    elseif name ==? 'ccomment'
+      call self.skip_syntax_group()
+    elseif name ==? 'linecont'
+      call self.skip_syntax_pattern()
+    endif
+  endwhile
+  return ''
+endfunction
+
+function! s:VimLParser.skip_syntax_group() abort
+  if !self.ends_excmds(self.reader.peekn(1))
+    call self.reader.read_nonwhite()
+    call self.reader.skip_white()
+  endif
+endfunction
+
+function! s:VimLParser.skip_syntax_keyword() abort
+  while self.reader.peekn(1) !=# '' && !s:iswhite(self.reader.peekn(1))
+    if self.reader.getn(1) ==# '\'
       call self.reader.getn(1)
-      call self.parse_pattern(c)
-    elseif c ==# '='
+    endif
+  endwhile
+  call self.reader.skip_white()
+endfunction
+
+" a pattern and its offsets
+function! s:VimLParser.skip_syntax_pattern() abort
+  if self.reader.peekn(1) !=# ''
+    call self.parse_pattern(self.reader.getn(1))
+    while !self.ends_excmds(self.reader.peekn(1)) && !s:iswhite(self.reader.peekn(1))
       call self.reader.getn(1)
-      call self.parse_pattern(' ')
-    elseif self.ends_excmds(c)
+    endwhile
+  endif
+  call self.reader.skip_white()
+endfunction
+
+function! s:VimLParser.skip_syntax_region() abort
+  while s:TRUE
+    call self.skip_syntax_options()
+    let name = self.reader.read_alpha()
+    call self.reader.skip_white()
+    if self.reader.peekn(1) !=# '='
       break
+    endif
+    call self.reader.getn(1)
+    call self.reader.skip_white()
+    if name ==? 'matchgroup'
+      call self.skip_syntax_group()
     else
+      call self.skip_syntax_pattern()
+    endif
+  endwhile
+endfunction
+
+function! s:VimLParser.skip_syntax_options() abort
+  while s:TRUE
+    let pos = self.reader.tell()
+    let name = self.reader.read_alpha()
+    let c = self.reader.peekn(1)
+    if name ==? 'cchar' && c ==# '='
+      call self.reader.getn(2)
+      call self.reader.skip_white()
+    elseif name =~# '^\c\(contains\|containedin\|nextgroup\)$' && (c ==# '=' || s:iswhite(c))
+      call self.reader.skip_white()
+      if self.reader.peekn(1) ==# '='
+        call self.reader.getn(1)
+        call self.skip_syntax_list()
+      endif
+    elseif name =~# '^\c\(contained\|oneline\|keepend\|extend\|excludenl\|transparent\|skipnl\|skipwhite\|skipempty\|grouphere\|groupthere\|display\|fold\|conceal\|concealends\)$' && (s:iswhite(c) || self.ends_excmds(c))
+      call self.reader.skip_white()
+      if name ==? 'grouphere' || name ==? 'groupthere'
+        call self.skip_syntax_group()
+      endif
+    else
+      call self.reader.seek_set(pos)
+      break
+    endif
+  endwhile
+endfunction
+
+" the names behind contains=, separated by commas
+function! s:VimLParser.skip_syntax_list() abort
+  while s:TRUE
+    call self.reader.skip_white()
+    if self.ends_excmds(self.reader.peekn(1))
+      break
+    endif
+    while self.reader.peekn(1) !=# '' && !s:iswhite(self.reader.peekn(1)) && self.reader.peekn(1) !=# ','
       call self.reader.getn(1)
+    endwhile
+    call self.reader.skip_white()
+    if self.reader.peekn(1) !=# ','
+      break
     endif
+    call self.reader.getn(1)
   endwhile
-  let node = s:Node(s:NODE_EXCMD)
-  let node.pos = self.ea.cmdpos
-  let node.ea = self.ea
-  let node.str = self.reader.getstr(self.ea.linepos, end)
-  call self.add_node(node)
 endfunction
 
 let s:VimLParser.neovim_additional_commands = [
diff --git a/go/typedefs.vim b/go/typedefs.vim
index b8aaeb4..0bcc9e6 100644
--- a/go/typedefs.vim
+++ b/go/typedefs.vim
@@ -61,6 +61,8 @@ call extend(s:typedefs.func, {
 \     'in': [],
 \     'out': ['bool'],
 \   },
+\   'VimLParser.read_bracket': { 'in': [], 'out': ['string'] },
+\   'VimLParser.skip_syntax_sync': { 'in': [], 'out': ['string'] },
 \   'VimLParser.find_command': {
 \     'in': [],
 \     'out': ['*Cmd'],
diff --git a/go/vimlfunc.go b/go/vimlfunc.go
index 6391f1c..d22f3e4 100644
--- a/go/vimlfunc.go
+++ b/go/vimlfunc.go
@@ -67,6 +67,8 @@ var patVim2Go = map[string]string{
 	"^[vgslabwt]:":             "^[vgslabwt]:",
 	"^[vgslabwt]:$\\|^\\([vgslabwt]:\\)\\?[A-Za-z_][0-9A-Za-z_#]*$": "^[vgslabwt]:$|^([vgslabwt]:)?[A-Za-z_][0-9A-Za-z_#]*$",
 	"^[di]\\(jump\\|list\\|search\\|split\\)$":                      "^[di](jump|list|search|split)$",
+	"^\\c\\(contained\\|oneline\\|keepend\\|extend\\|excludenl\\|transparent\\|skipnl\\|skipwhite\\|skipempty\\|grouphere\\|groupthere\\|display\\|fold\\|conceal\\|concealends\\)$": "(?i)^(contained|oneline|keepend|extend|excludenl|transparent|skipnl|skipwhite|skipempty|grouphere|groupthere|display|fold|conceal|concealends)$",
+	"^\\c\\(contains\\|containedin\\|nextgroup\\)$": "(?i)^(contains|containedin|nextgroup)$",
 	"^[0-7]$":                   "^[0-7]$",
 	"^[0-9A-Fa-f][0-9A-Fa-f]$":  "^[0-9A-Fa-f][0-9A-Fa-f]$",
 	"^\\.[0-9A-Fa-f]$":          "^\\.[0-9A-Fa-f]$",
diff --git a/go/vimlparser.go b/go/vimlparser.go
index b1f98eb..1dbe24c 100644
--- a/go/vimlparser.go
+++ b/go/vimlparser.go
@@ -646,6 +646,7 @@ func (self *VimLParser) read_pattern(delimiter string) (string, string) {
 	var pattern = ""
 	var endc = ""
 	var inbracket = 0
+	var magic = true
 	for true {
 		var c = self.reader.getn(1)
 		if c == "" {
@@ -664,13 +665,20 @@ func (self *VimLParser) read_pattern(delimiter string) (string, string) {
 			}
 			self.reader.getn(1)
 			pattern += c
-		} else if c == "[" && inbracket == 0 {
-			inbracket = 1
-			if self.reader.peekn(1) == "^" {
-				pattern += self.reader.getn(1)
+			if inbracket == 0 {
+				if c == "V" || c == "M" {
+					magic = false
+				} else if c == "v" || c == "m" {
+					magic = true
+				} else if c == "[" && !magic {
+					pattern += self.read_bracket()
+					inbracket = 1
+				}
 			}
-			if self.reader.peekn(1) == "]" {
-				pattern += self.reader.getn(1)
+		} else if c == "[" && inbracket == 0 {
+			if magic {
+				pattern += self.read_bracket()
+				inbracket = 1
 			}
 		} else if c == "[" && viml_eqregh(self.reader.peekn(12), "^\\(:\\a\\+:\\|=.=\\|\\..\\.\\)\\]") {
 			inbracket += 1
@@ -681,6 +689,18 @@ func (self *VimLParser) read_pattern(delimiter string) (string, string) {
 	return pattern, endc
 }
 
+// the ^ and the ] which a collection may begin with
+func (self *VimLParser) read_bracket() string {
+	var s = ""
+	if self.reader.peekn(1) == "^" {
+		s += self.reader.getn(1)
+	}
+	if self.reader.peekn(1) == "]" {
+		s += self.reader.getn(1)
+	}
+	return s
+}
+
 func (self *VimLParser) parse_command() {
 	self.reader.skip_white_and_colon()
 	self.ea.cmdpos = self.reader.getpos()
@@ -2106,27 +2126,141 @@ func (self *VimLParser) skip_substitute() {
 
 // FIXME: validate argument
 func (self *VimLParser) parse_cmd_syntax() {
+	self.reader.skip_white()
+	var name = self.reader.read_alpha()
+	self.reader.skip_white()
+	if name == "sync" {
+		name = self.skip_syntax_sync()
+	}
+	if viml_equalci(name, "match") {
+		self.skip_syntax_group()
+		self.skip_syntax_options()
+		self.skip_syntax_pattern()
+		self.skip_syntax_options()
+	} else if viml_equalci(name, "region") {
+		self.skip_syntax_group()
+		self.skip_syntax_region()
+	} else if name == "keyword" {
+		self.skip_syntax_group()
+		for !self.ends_excmds(self.reader.peekn(1)) {
+			self.skip_syntax_keyword()
+		}
+	}
 	var end = self.reader.getpos()
-	for true {
+	for !self.ends_excmds(self.reader.peekn(1)) {
+		self.reader.getn(1)
 		end = self.reader.getpos()
-		var c = self.reader.peek()
-		if c == "/" || c == "'" || c == "\"" {
+	}
+	var node = Node(NODE_EXCMD)
+	node.pos = self.ea.cmdpos
+	node.ea = self.ea
+	node.str = self.reader.getstr(self.ea.linepos, end)
+	self.add_node(node)
+}
+
+// the arguments of :syntax sync up to those of match or region
+func (self *VimLParser) skip_syntax_sync() string {
+	for !self.ends_excmds(self.reader.peekn(1)) {
+		var name = self.reader.read_nonwhite()
+		self.reader.skip_white()
+		if viml_equalci(name, "match") || viml_equalci(name, "region") {
+			return name
+		} else if viml_equalci(name, "ccomment") {
+			self.skip_syntax_group()
+		} else if viml_equalci(name, "linecont") {
+			self.skip_syntax_pattern()
+		}
+	}
+	return ""
+}
+
+func (self *VimLParser) skip_syntax_group() {
+	if !self.ends_excmds(self.reader.peekn(1)) {
+		self.reader.read_nonwhite()
+		self.reader.skip_white()
+	}
+}
+
+func (self *VimLParser) skip_syntax_keyword() {
+	for self.reader.peekn(1) != "" && !iswhite(self.reader.peekn(1)) {
+		if self.reader.getn(1) == "\\" {
 			self.reader.getn(1)
-			self.parse_pattern(c)
-		} else if c == "=" {
+		}
+	}
+	self.reader.skip_white()
+}
+
+// a pattern and its offsets
+func (self *VimLParser) skip_syntax_pattern() {
+	if self.reader.peekn(1) != "" {
+		self.parse_pattern(self.reader.getn(1))
+		for !self.ends_excmds(self.reader.peekn(1)) && !iswhite(self.reader.peekn(1)) {
 			self.reader.getn(1)
-			self.parse_pattern(" ")
-		} else if self.ends_excmds(c) {
+		}
+	}
+	self.reader.skip_white()
+}
+
+func (self *VimLParser) skip_syntax_region() {
+	for true {
+		self.skip_syntax_options()
+		var name = self.reader.read_alpha()
+		self.reader.skip_white()
+		if self.reader.peekn(1) != "=" {
 			break
+		}
+		self.reader.getn(1)
+		self.reader.skip_white()
+		if viml_equalci(name, "matchgroup") {
+			self.skip_syntax_group()
 		} else {
+			self.skip_syntax_pattern()
+		}
+	}
+}
+
+func (self *VimLParser) skip_syntax_options() {
+	for true {
+		var pos = self.reader.tell()
+		var name = self.reader.read_alpha()
+		var c = self.reader.peekn(1)
+		if viml_equalci(name, "cchar") && c == "=" {
+			self.reader.getn(2)
+			self.reader.skip_white()
+		} else if viml_eqregh(name, "^\\c\\(contains\\|containedin\\|nextgroup\\)$") && (c == "=" || iswhite(c)) {
+			self.reader.skip_white()
+			if self.reader.peekn(1) == "=" {
+				self.reader.getn(1)
+				self.skip_syntax_list()
+			}
+		} else if viml_eqregh(name, "^\\c\\(contained\\|oneline\\|keepend\\|extend\\|excludenl\\|transparent\\|skipnl\\|skipwhite\\|skipempty\\|grouphere\\|groupthere\\|display\\|fold\\|conceal\\|concealends\\)$") && (iswhite(c) || self.ends_excmds(c)) {
+			self.reader.skip_white()
+			if viml_equalci(name, "grouphere") || viml_equalci(name, "groupthere") {
+				self.skip_syntax_group()
+			}
+		} else {
+			self.reader.seek_set(pos)
+			break
+		}
+	}
+}
+
+// the names behind contains=, separated by commas
+func (self *VimLParser) skip_syntax_list() {
+	for true {
+		self.reader.skip_white()
+		if self.ends_excmds(self.reader.peekn(1)) {
+			break
+		}
+		for self.reader.peekn(1) != "" && !iswhite(self.reader.peekn(1)) && self.reader.peekn(1) != "," {
 			self.reader.getn(1)
 		}
+		self.reader.skip_white()
+		if self.reader.peekn(1) != "," {
+			break
+		}
+		self.reader.getn(1)
 	}
-	var node = Node(NODE_EXCMD)
-	node.pos = self.ea.cmdpos
-	node.ea = self.ea
-	node.str = self.reader.getstr(self.ea.linepos, end)
-	self.add_node(node)
 }
 
 // To find new builtin_commands, run the below script.
-- 
2.43.0


From c6e8cc7c06a1df5bd2ce19163cd9919fb8a826b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:47 +0000
Subject: [PATCH 55/59] fix: :endfunction! is allowed at the end of a function

---
 autoload/vimlparser.vim | 2 +-
 go/vimlparser.go        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/autoload/vimlparser.vim b/autoload/vimlparser.vim
index 1eb8da4..2a2465c 100644
--- a/autoload/vimlparser.vim
+++ b/autoload/vimlparser.vim
@@ -824,7 +824,7 @@ function! s:VimLParser.parse_command() abort
     let self.ea.forceit = s:FALSE
   endif
 
-  if self.ea.cmd.flags !~# '\<BANG\>' && self.ea.forceit && self.ea.cmd.flags !~# '\<USERCMD\>'
+  if self.ea.cmd.flags !~# '\<BANG\>' && self.ea.forceit && self.ea.cmd.flags !~# '\<USERCMD\>' && (self.ea.cmd.name !=# 'endfunction' || self.find_context(s:NODE_FUNCTION) ==# -1)
     throw s:Err('E477: No ! allowed', self.ea.cmdpos)
   endif
 
diff --git a/go/vimlparser.go b/go/vimlparser.go
index 1dbe24c..6e743ac 100644
--- a/go/vimlparser.go
+++ b/go/vimlparser.go
@@ -721,7 +721,7 @@ func (self *VimLParser) parse_command() {
 	} else {
 		self.ea.forceit = false
 	}
-	if !viml_eqregh(self.ea.cmd.flags, "\\<BANG\\>") && self.ea.forceit && !viml_eqregh(self.ea.cmd.flags, "\\<USERCMD\\>") {
+	if !viml_eqregh(self.ea.cmd.flags, "\\<BANG\\>") && self.ea.forceit && !viml_eqregh(self.ea.cmd.flags, "\\<USERCMD\\>") && (self.ea.cmd.name != "endfunction" || self.find_context(NODE_FUNCTION) == -1) {
 		panic(Err("E477: No ! allowed", self.ea.cmdpos))
 	}
 	if self.ea.cmd.name != "!" {
-- 
2.43.0


From b9aca0b1ec85036975635c72c077bcff80010fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:01 +0000
Subject: [PATCH 56/59] fix: a trailing blank of a command is kept when it is
 escaped

---
 autoload/vimlparser.vim | 5 +++++
 go/vimlparser.go        | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/autoload/vimlparser.vim b/autoload/vimlparser.vim
index 2a2465c..f478ac4 100644
--- a/autoload/vimlparser.vim
+++ b/autoload/vimlparser.vim
@@ -1222,6 +1222,7 @@ function! s:VimLParser.separate_nextcmd() abort
         break
       endif
       call self.reader.get()
+      let nospend = self.reader.getpos()
     elseif self.reader.peekn(2) ==# '`=' && self.ea.cmd.flags =~# '\<\(XFILE\|FILES\|FILE1\)\>'
       call self.reader.getn(2)
       call self.parse_expr()
@@ -1244,6 +1245,10 @@ function! s:VimLParser.separate_nextcmd() abort
       endif
     else
       call self.reader.get()
+      if pc ==# '\'
+        " a trailing blank is kept when it is escaped
+        let nospend = self.reader.getpos()
+      endif
     endif
     let pc = c
   endwhile
diff --git a/go/vimlparser.go b/go/vimlparser.go
index 6e743ac..03dd748 100644
--- a/go/vimlparser.go
+++ b/go/vimlparser.go
@@ -1098,6 +1098,7 @@ func (self *VimLParser) separate_nextcmd() *pos {
 				break
 			}
 			self.reader.get()
+			nospend = self.reader.getpos()
 		} else if self.reader.peekn(2) == "`=" && viml_eqregh(self.ea.cmd.flags, "\\<\\(XFILE\\|FILES\\|FILE1\\)\\>") {
 			self.reader.getn(2)
 			self.parse_expr()
@@ -1116,6 +1117,10 @@ func (self *VimLParser) separate_nextcmd() *pos {
 			}
 		} else {
 			self.reader.get()
+			if pc == "\\" {
+				// a trailing blank is kept when it is escaped
+				nospend = self.reader.getpos()
+			}
 		}
 		pc = c
 	}
-- 
2.43.0


From be0f1aebd7fc9eee91f18495e7ccf72f2f69691c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:52 +0000
Subject: [PATCH 57/59] fix: the names of an option and of an environment
 variable must not be empty

---
 autoload/vimlparser.vim | 6 ++++++
 go/vimlparser.go        | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/autoload/vimlparser.vim b/autoload/vimlparser.vim
index f478ac4..5c166cc 100644
--- a/autoload/vimlparser.vim
+++ b/autoload/vimlparser.vim
@@ -3799,6 +3799,9 @@ function! s:ExprTokenizer.get2() abort
   elseif c ==# '$'
     let s = r.getn(1)
     let s .= r.read_word()
+    if s ==# '$'
+      throw s:Err('unexpected token: $', pos)
+    endif
     return self.token(s:TOKEN_ENV, s, pos)
   elseif c ==# '@'
     " @<EOL> is treated as @"
@@ -3810,6 +3813,9 @@ function! s:ExprTokenizer.get2() abort
     else
       let s = r.getn(1) . r.read_word()
     endif
+    if s ==# '&' || s ==# '&g:' || s ==# '&l:'
+      throw s:Err('E112: Option name missing', pos)
+    endif
     return self.token(s:TOKEN_OPTION, s, pos)
   elseif c ==# '='
     call r.seek_cur(1)
diff --git a/go/vimlparser.go b/go/vimlparser.go
index 03dd748..0ae700f 100644
--- a/go/vimlparser.go
+++ b/go/vimlparser.go
@@ -2538,6 +2538,9 @@ func (self *ExprTokenizer) get2() *ExprToken {
 	} else if c == "$" {
 		var s = r.getn(1)
 		s += r.read_word()
+		if s == "$" {
+			panic(Err("unexpected token: $", pos))
+		}
 		return self.token(TOKEN_ENV, s, pos)
 	} else if c == "@" {
 		// @<EOL> is treated as @"
@@ -2549,6 +2552,9 @@ func (self *ExprTokenizer) get2() *ExprToken {
 		} else {
 			s = r.getn(1) + r.read_word()
 		}
+		if s == "&" || s == "&g:" || s == "&l:" {
+			panic(Err("E112: Option name missing", pos))
+		}
 		return self.token(TOKEN_OPTION, s, pos)
 	} else if c == "=" {
 		r.seek_cur(1)
-- 
2.43.0


From 6f2a1917fb904965aa636004b568bad500ec29e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:41:16 +0000
Subject: [PATCH 58/59] fix: a trailing blank of a command is kept behind
 CTRL-V CTRL-V

---
 autoload/vimlparser.vim | 2 +-
 go/vimlparser.go        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/autoload/vimlparser.vim b/autoload/vimlparser.vim
index 5c166cc..eb73598 100644
--- a/autoload/vimlparser.vim
+++ b/autoload/vimlparser.vim
@@ -1245,7 +1245,7 @@ function! s:VimLParser.separate_nextcmd() abort
       endif
     else
       call self.reader.get()
-      if pc ==# '\'
+      if pc ==# '\' || pc ==# "\x16"
         " a trailing blank is kept when it is escaped
         let nospend = self.reader.getpos()
       endif
diff --git a/go/vimlparser.go b/go/vimlparser.go
index 0ae700f..4f3e858 100644
--- a/go/vimlparser.go
+++ b/go/vimlparser.go
@@ -1117,7 +1117,7 @@ func (self *VimLParser) separate_nextcmd() *pos {
 			}
 		} else {
 			self.reader.get()
-			if pc == "\\" {
+			if pc == "\\" || pc == "\x16" {
 				// a trailing blank is kept when it is escaped
 				nospend = self.reader.getpos()
 			}
-- 
2.43.0


From 32b7be2b233c98cd9b02550efcf530459f3f7942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:12:11 +0000
Subject: [PATCH 59/59] fix: a bar ends :hide

---
 autoload/vimlparser.vim | 2 +-
 go/builtin_commands.go  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/autoload/vimlparser.vim b/autoload/vimlparser.vim
index eb73598..e744e71 100644
--- a/autoload/vimlparser.vim
+++ b/autoload/vimlparser.vim
@@ -2617,7 +2617,7 @@ let s:VimLParser.builtin_commands = [
       \ {'name': 'helpgrep', 'minlen': 5, 'flags': 'EXTRA|NOTRLCOM|NEEDARG', 'parser': 'parse_cmd_common'},
       \ {'name': 'helptags', 'minlen': 5, 'flags': 'NEEDARG|FILES|TRLBAR|CMDWIN', 'parser': 'parse_cmd_common'},
       \ {'name': 'highlight', 'minlen': 2, 'flags': 'BANG|EXTRA|TRLBAR|SBOXOK|CMDWIN', 'parser': 'parse_cmd_common'},
-      \ {'name': 'hide', 'minlen': 3, 'flags': 'BANG|EXTRA|NOTRLCOM', 'parser': 'parse_cmd_common'},
+      \ {'name': 'hide', 'minlen': 3, 'flags': 'BANG|RANGE|NOTADR|COUNT|EXTRA|TRLBAR', 'parser': 'parse_cmd_common'},
       \ {'name': 'history', 'minlen': 3, 'flags': 'EXTRA|TRLBAR|CMDWIN', 'parser': 'parse_cmd_common'},
       \ {'name': 'insert', 'minlen': 1, 'flags': 'BANG|RANGE|TRLBAR|CMDWIN|MODIFY', 'parser': 'parse_cmd_insert'},
       \ {'name': 'iabbrev', 'minlen': 2, 'flags': 'EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN', 'parser': 'parse_cmd_common'},
diff --git a/go/builtin_commands.go b/go/builtin_commands.go
index 5c6c26a..c8984dc 100644
--- a/go/builtin_commands.go
+++ b/go/builtin_commands.go
@@ -186,7 +186,7 @@ var builtin_commands = []*Cmd{
 	{flags: "EXTRA|NOTRLCOM|NEEDARG", minlen: 5, name: "helpgrep", parser: "parse_cmd_common"},
 	{flags: "NEEDARG|FILES|TRLBAR|CMDWIN", minlen: 5, name: "helptags", parser: "parse_cmd_common"},
 	{flags: "BANG|EXTRA|TRLBAR|SBOXOK|CMDWIN", minlen: 2, name: "highlight", parser: "parse_cmd_common"},
-	{flags: "BANG|EXTRA|NOTRLCOM", minlen: 3, name: "hide", parser: "parse_cmd_common"},
+	{flags: "BANG|RANGE|NOTADR|COUNT|EXTRA|TRLBAR", minlen: 3, name: "hide", parser: "parse_cmd_common"},
 	{flags: "EXTRA|TRLBAR|CMDWIN", minlen: 3, name: "history", parser: "parse_cmd_common"},
 	{flags: "BANG|RANGE|TRLBAR|CMDWIN|MODIFY", minlen: 1, name: "insert", parser: "parse_cmd_insert"},
 	{flags: "EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN", minlen: 2, name: "iabbrev", parser: "parse_cmd_common"},
-- 
2.43.0

