From 86f83a459d4d68d1f5fc72c090066c388fdbb878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:27 +0000
Subject: [PATCH 01/93] fix: accept a return with no values at the very end of
 the code

---
 pico_parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pico_parse.py b/pico_parse.py
index 4d0f0e3..3d18fa2 100644
--- a/pico_parse.py
+++ b/pico_parse.py
@@ -825,7 +825,7 @@ def parse(source, tokens, ctxt=None, super_root=None, lang=None, for_expr=False)
 
     def parse_return(vline):
         tokens = [peek(-1)]
-        if peek().value in k_block_ends + (";",) or (e(vline) and peek().vline > vline):
+        if peek().value in k_block_ends + (";", None) or (e(vline) and peek().vline > vline):
             return Node(NodeType.return_, tokens, items=[])
         else:
             rets = parse_list(tokens, parse_expr)
-- 
2.43.0


From f0dad3c371eaeef4b5feeba448cfe6d21ae89203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:27 +0000
Subject: [PATCH 02/93] fix: include preprocessing: skip c-style comments and
 any long string, and never loop forever on unclosed brackets

---
 pico_preprocess.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pico_preprocess.py b/pico_preprocess.py
index 1194164..dc86e80 100644
--- a/pico_preprocess.py
+++ b/pico_preprocess.py
@@ -31,14 +31,15 @@ def preprocess_code(path, code, start_line=0, **opts):
     while i < len(code):
         ch = code[i]
 
-        if ch == '-' and list_get(code, i + 1) == '-': # comment
+        if ch in '-/' and list_get(code, i + 1) == ch: # comment (lua or c-style)
             i += 2
-            if not skip_long_brackets():
+            if ch == '/' or not skip_long_brackets():
                 while list_get(code, i) not in ('\n', None):
                     i += 1
 
-        elif ch == '[' and list_get(code, i + 1) == '[': # long string
-            skip_long_brackets()
+        elif ch == '[': # maybe a long string
+            if not skip_long_brackets():
+                i += 1
 
         elif ch in ('"', "'"): # string
             i += 1
-- 
2.43.0


From 41a837e755012885234bf13413483517ce2259d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:21 +0000
Subject: [PATCH 03/93] fix: long string literals whose value ends with a
 closing bracket were cut short

---
 pico_output.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pico_output.py b/pico_output.py
index d02e13c..f4c62c4 100644
--- a/pico_output.py
+++ b/pico_output.py
@@ -214,17 +214,17 @@ k_char_escapes_rev_min = {k: v for k, v in k_char_escapes_rev.items() if k in "\
 def get_long_brackets_equals(value):
     for i in itertools.count():
         eqs = "=" * i
-        if f"]{eqs}]" not in value:
+        if f"]{eqs}]" not in value + f"]{eqs}": # (the end of value must not combine with the closing bracket)
             return eqs
 
 def format_string_literal(value, use_ctrl_chars=True, use_complex_long=True, long=None, quote=None):
     """format a pico8 string to a pico8 string literal"""
 
     if long != False:
-        if "\0" not in value and "\r" not in value and (use_complex_long or "]]" not in value):
+        eqs = get_long_brackets_equals(value)
+        if "\0" not in value and "\r" not in value and (use_complex_long or not eqs):
             newline = "\n" if value.startswith("\n") else ""
 
-            eqs = get_long_brackets_equals(value)
             strlong = f"[{eqs}[{newline}{value}]{eqs}]"
             if long == True:
                 return strlong
-- 
2.43.0


From a47be1d35b48389bcfdc2538d1a0f568e37df728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:27 +0000
Subject: [PATCH 04/93] fix: keep a comment from fusing with a preceding '-' or
 '/' token

---
 pico_output.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pico_output.py b/pico_output.py
index f4c62c4..f1b6ed0 100644
--- a/pico_output.py
+++ b/pico_output.py
@@ -257,8 +257,10 @@ def format_string_literal(value, use_ctrl_chars=True, use_complex_long=True, lon
     return strlong if len(strlong) < len(strlit) else strlit
 
 def need_whitespace_between(ctxt, prev, next):
-    if isinstance(prev, Comment) or isinstance(next, Comment):
+    if isinstance(prev, Comment):
         return False
+    if isinstance(next, Comment): # e.g. '-' followed by '--'
+        return prev.value.endswith(next.value[:1])
 
     combined = prev.value + next.value
     ct, ce = tokenize(Source("<output>", combined), lang=ctxt.lang) # TODO: optimize?
-- 
2.43.0


From 61e3f3f4d2cc2229536715b3ea0b8b425f44d0a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:27 +0000
Subject: [PATCH 05/93] fix: end a shorthand with a line break even when a
 multi-line block comment follows it

---
 pico_output.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pico_output.py b/pico_output.py
index f1b6ed0..b688d72 100644
--- a/pico_output.py
+++ b/pico_output.py
@@ -357,7 +357,7 @@ def output_node(root, ctxt, minify=True, minify_wspace=None, minify_lines=None,
         wspace_output(comment, can_need_linebreak=False)
         output.append(comment_out)
 
-        if need_linebreak and "\n" in comment_out:
+        if need_linebreak and comment_out.endswith("\n"): # (line breaks inside block comments don't end a shorthand)
             need_linebreak = False
 
     def token_output(token):
-- 
2.43.0


From 74a3691e9f22b5605fcf3bf0f103b09b3a68d0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:57 +0000
Subject: [PATCH 06/93] fix: unminify: keep ';' before '(', avoid forming '--'
 and '[[', keep print shorthands in one line, no crash on a ';' inside a short
 else

---
 pico_unminify.py | 48 ++++++++++++++++++++++++++++++++++--------------
 1 file changed, 34 insertions(+), 14 deletions(-)

diff --git a/pico_unminify.py b/pico_unminify.py
index e17dff4..ce36641 100644
--- a/pico_unminify.py
+++ b/pico_unminify.py
@@ -11,10 +11,19 @@ def unminify_code(root, unminify_opts):
     indent = 0
     curr_stmt = None
     stmt_stack = []
+    curr_print = None
 
     k_tight_prefix_tokens = ("(", "[", "{", "?", ".", ":", "::")
     k_tight_suffix_tokens = (")", "]", "}", ",", ";", ".", ":", "::")
 
+    def output_newline():
+        # print shorthands must remain in one line, even if they contain functions
+        output.append(" " if curr_print else "\n")
+
+    def output_indent():
+        if not curr_print:
+            output.append(indent_str * indent)
+
     def visit_token(token):
         nonlocal prev_token, prev_tight
         value = token.value
@@ -23,12 +32,12 @@ def unminify_code(root, unminify_opts):
             comment_value = comment.value
             if "\n" in comment_value:
                 if prev_tight:
-                    output.append("\n")
-                    output.append(indent_str * indent)
+                    output_newline()
+                    output_indent()
                 output.append(comment_value)
                 if not comment_value.endswith("\n"):
-                    output.append("\n")
-                output.append(indent_str * indent)
+                    output_newline()
+                output_indent()
             else:
                 if prev_tight and prev_token.value not in k_tight_prefix_tokens:
                     output.append(" ")
@@ -40,11 +49,12 @@ def unminify_code(root, unminify_opts):
 
         # ignore shorthand parens, to avoid increasing token count as we convert shorthands to longhand
         gparent = token.parent.parent
-        if gparent and is_short_block_stmt(gparent) and token.parent == gparent.cond and token.value in ("(", ")"):
+        if gparent and is_short_block_stmt(gparent) and gparent.type != NodeType.else_ and token.parent == gparent.cond and token.value in ("(", ")"):
             return
         
         # ignore semicolons inside blocks - our formatting makes them unneeded
-        if token.parent.type == NodeType.block and token.value == ";":
+        # (except when removing them would turn the next statement into a call)
+        if token.parent.type == NodeType.block and token.value == ";" and token.next_token().value != "(":
             return
         
         # undo ugly token replacements
@@ -58,12 +68,17 @@ def unminify_code(root, unminify_opts):
                 not (prev_token.type == TokenType.punct and prev_token.parent.type == NodeType.unary_op):
             output.append(" ")
 
+        # avoid forming a comment ("--") or a long string ("[[", "[=") by mistake
+        elif prev_tight and ((prev_token.value == "-" and token.value == "-") or
+                             (prev_token.value == "[" and token.value.startswith("["))):
+            output.append(" ")
+
         output.append(value)
         prev_token = token
         prev_tight = True
 
     def visit_node(node):
-        nonlocal indent, curr_stmt, prev_tight
+        nonlocal indent, curr_stmt, curr_print, prev_tight
 
         if node.type == NodeType.block:
             if node.parent:
@@ -74,28 +89,31 @@ def unminify_code(root, unminify_opts):
 
             stmt_stack.append(curr_stmt)
             curr_stmt = None
-            output.append("\n")
+            output_newline()
             prev_tight = False
 
         elif curr_stmt is None:
             if is_function_stmt(node):
                 child_i = node.parent.children.index(node)
                 if child_i > 0 and not is_function_stmt(node.parent.children[child_i - 1]):
-                    output.append("\n")
+                    output_newline()
 
             curr_stmt = node
-            output.append(indent_str * indent)
+            output_indent()
             prev_tight = False
 
+            if node.type == NodeType.call and node.short and curr_print is None:
+                curr_print = node
+
     def end_visit_node(node):
-        nonlocal indent, curr_stmt, prev_tight
+        nonlocal indent, curr_stmt, curr_print, prev_tight
 
         if node.type == NodeType.block:
             if node.parent:
                 indent -= 1
 
             curr_stmt = stmt_stack.pop()
-            output.append(indent_str * indent)
+            output_indent()
             prev_tight = False
             
             # shorthand -> longhand
@@ -104,11 +122,13 @@ def unminify_code(root, unminify_opts):
 
         elif node is curr_stmt:
             curr_stmt = None
-            output.append("\n")
+            if node is curr_print:
+                curr_print = None
+            output_newline()
             prev_tight = False
                 
             if is_function_stmt(node):
-                output.append("\n")
+                output_newline()
 
     root.traverse_nodes(visit_node, end_visit_node, tokens=visit_token)
 
-- 
2.43.0


From c7e4851d8184b058f058327f30f16f4bff77a91a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:57 +0000
Subject: [PATCH 07/93] fix: \z at the end of a string literal or of the code
 crashed or looped forever

---
 pico_tokenize.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pico_tokenize.py b/pico_tokenize.py
index 99ad0d9..b30cd2f 100644
--- a/pico_tokenize.py
+++ b/pico_tokenize.py
@@ -636,7 +636,7 @@ def tokenize(source, ctxt=None, all_comments=False, lang=None, inner=False):
                 break
             elif ch == '\\':
                 if accept('z'): # skip line breaks
-                    while peek() in k_wspace:
+                    while peek() and peek() in k_wspace:
                         take()
                 else:
                     take() # at least
@@ -859,7 +859,7 @@ def parse_char_escape(str, pos, lang):
 
     elif esc == 'z':
         end = pos + 2
-        while str_get(str, end) in k_wspace:
+        while str_get(str, end, 'x') in k_wspace:
             end += 1
         return "", end
 
-- 
2.43.0


From 91b077513d9963347fc47d4d11c226e0df210db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:57 +0000
Subject: [PATCH 08/93] fix: accept a print shorthand with no values, which
 minification itself generates

---
 pico_parse.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pico_parse.py b/pico_parse.py
index 3d18fa2..4a72f4f 100644
--- a/pico_parse.py
+++ b/pico_parse.py
@@ -833,7 +833,10 @@ def parse(source, tokens, ctxt=None, super_root=None, lang=None, for_expr=False)
         
     def parse_print():
         tokens = [peek(-1)]
-        args = parse_list(tokens, parse_expr)
+        if peek().value is None or peek().vline > tokens[0].vline:
+            args = []
+        else:
+            args = parse_list(tokens, parse_expr)
         # explicitly represent the implicit use of print
         print_token = Token.synthetic(TokenType.ident, "print", tokens[0])
         func = parse_var(token=print_token, implicit=True)
-- 
2.43.0


From 649a25efc6da1f43fb1cfbded7f4acff8d39b811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:57 +0000
Subject: [PATCH 09/93] fix: keep the line break after a new print shorthand
 when the next token was adjacent in the source

---
 pico_output.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pico_output.py b/pico_output.py
index b688d72..c97463b 100644
--- a/pico_output.py
+++ b/pico_output.py
@@ -314,7 +314,7 @@ def output_node(root, ctxt, minify=True, minify_wspace=None, minify_lines=None,
         
         if minify_wspace:
             # (modified tokens may require whitespace not previously required - e.g. 0b/0x)
-            if (prev.endidx < next.idx or prev.source != next.source or prev.modified or next.modified) and prev.value:
+            if (prev.endidx < next.idx or prev.source != next.source or prev.modified or next.modified or need_linebreak) and prev.value:
                 # TODO: can we systemtically add whitespace to imrpove compression? (failed so far)
 
                 if (need_linebreak and can_need_linebreak) or (not minify_lines and next.vline != prev.vline):
-- 
2.43.0


From d9ed1ce7dcc2eead755f28b314bb72f516321281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:22 +0000
Subject: [PATCH 10/93] fix: a block containing only semicolons was minified to
 an empty shorthand block

---
 pico_minify.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pico_minify.py b/pico_minify.py
index 26f09c3..8f6f9e4 100644
--- a/pico_minify.py
+++ b/pico_minify.py
@@ -173,7 +173,7 @@ def minify_change_block_shorthand(node, new_short):
 
         # fixup empty bodies
         for body in get_node_bodies(node):
-            if not body.children:
+            if not any(child.type for child in body.children): # (children may have been erased)
                 body.append_token(TokenType.punct, ";")
         
         on_enable_shorthand(node)
-- 
2.43.0


From 584c2b5639decef8e1a0a7c6c3b7a43d76741e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:22 +0000
Subject: [PATCH 11/93] fix: the condition of a shorthand must stay in one line
 even if it contains strings with line breaks

---
 pico_minify.py | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/pico_minify.py b/pico_minify.py
index 8f6f9e4..99ebbd7 100644
--- a/pico_minify.py
+++ b/pico_minify.py
@@ -10,11 +10,20 @@ class Focus(Bitmask):
     chars = compressed = tokens = ...
     none = 0
 
+def is_in_shorthand_cond(node):
+    while node.parent:
+        if is_short_block_stmt(node.parent) and node.parent.type != NodeType.else_ and node is node.parent.cond:
+            return True
+        node = node.parent
+    return False
+
 def minify_string_literal(ctxt, token, focus, value=None):
     if value is None:
         value = token.parsed_value
     
-    if focus.chars:
+    if "\n" in value and is_in_shorthand_cond(token): # must be in a single line
+        return format_string_literal(value, long=False)
+    elif focus.chars:
         return format_string_literal(value, use_complex_long=ctxt.version >= 40)
     else:
         # haven't found a good balanced heuristic for 'long' yet
@@ -72,7 +81,18 @@ def analyze_code_for_minify(root, focus, ctxt, safe_builtins):
         
         body.traverse_nodes(post=check_child_shorthand)
         return allowed
-        
+
+    def allow_shorthand_cond(cond):
+        # the condition of a shorthand must be in a single line, even inside strings
+        allowed = True
+        def check_string(token):
+            nonlocal allowed
+            if token.type == TokenType.string and "\n" in minify_string_literal(ctxt, token, focus):
+                allowed = False
+
+        cond.traverse_tokens(check_string)
+        return allowed
+
     def analyze_node_post(node):
         if node.type in (NodeType.if_, NodeType.while_):
             to_short = node.short
@@ -91,7 +111,7 @@ def analyze_code_for_minify(root, focus, ctxt, safe_builtins):
                 allow_shorthand = allow_parent_shorthands(node)
 
                 # now check the children
-                if not allow_child_shorthands(node, node.cond):
+                if not allow_child_shorthands(node, node.cond) or not allow_shorthand_cond(node.cond):
                     allow_shorthand = False
                 
                 for i, body in enumerate(get_node_bodies(node)):
-- 
2.43.0


From 2602a10de7acad5dfdccea0e524cbb74fa0bac4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:22 +0000
Subject: [PATCH 12/93] fix: don't turn an if shorthand inside a remaining (or
 new) while shorthand into an if-end, which may break the line

---
 pico_minify.py | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/pico_minify.py b/pico_minify.py
index 99ebbd7..cd24234 100644
--- a/pico_minify.py
+++ b/pico_minify.py
@@ -72,11 +72,11 @@ def analyze_code_for_minify(root, focus, ctxt, safe_builtins):
         node.traverse_parents(check_parent_shorthand)
         return allowed
     
-    def allow_child_shorthands(node, body):
+    def allow_child_shorthands(node, body, potential=True):
         allowed = True
         def check_child_shorthand(child):
             nonlocal allowed
-            if (child.short or child in allowed_shorts) and not allow_shorthand_nesting(node, body, child):
+            if (child.short or (potential and child in allowed_shorts)) and not allow_shorthand_nesting(node, body, child):
                 allowed = False
         
         body.traverse_nodes(post=check_child_shorthand)
@@ -163,7 +163,23 @@ def analyze_code_for_minify(root, focus, ctxt, safe_builtins):
     else:
         new_shorts[NodeType.call] = True
 
-    return Dynamic(new_shorts=new_shorts, allowed_shorts=allowed_shorts)
+    # the above assumed that all shorthands remain. The below checks for when some block shorthands are removed
+
+    def can_remove_short(node):
+        # don't add an 'end' inside a shorthand that remains - it may end up in the next line
+        allowed = True
+        def check_parent_shorthand(parent):
+            nonlocal allowed
+            if is_short_block_stmt(parent):
+                allowed = False
+
+        node.traverse_parents(check_parent_shorthand)
+        return allowed
+
+    def can_add_short(node):
+        return all(allow_child_shorthands(node, body, potential=False) for body in get_node_bodies(node))
+
+    return Dynamic(new_shorts=new_shorts, allowed_shorts=allowed_shorts, can_remove_short=can_remove_short, can_add_short=can_add_short)
 
 def on_enable_shorthand(node):
     # remove line breaks originally in the source
@@ -385,7 +401,7 @@ def minify_code(ctxt, root, minify_opts):
         if minify_tokens:
             # remove shorthands
 
-            if node.type in (NodeType.if_, NodeType.while_) and node.short and (analysis.new_shorts[node.type] == False):
+            if node.type in (NodeType.if_, NodeType.while_) and node.short and (analysis.new_shorts[node.type] == False) and analysis.can_remove_short(node):
                 minify_change_block_shorthand(node, False)
                 
             # remove unneeded groups
@@ -434,7 +450,7 @@ def minify_code(ctxt, root, minify_opts):
             # create shorthands
             
             if (node.type in (NodeType.if_, NodeType.while_) and not node.short and
-                    analysis.new_shorts[node.type] and node in analysis.allowed_shorts):
+                    analysis.new_shorts[node.type] and node in analysis.allowed_shorts and analysis.can_add_short(node)):
                 minify_change_block_shorthand(node, True)
 
             if (node.type == NodeType.call and not node.short and 
-- 
2.43.0


From a6f3b9d76ff13551f6804079e5004b07230eace6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:07 +0000
Subject: [PATCH 13/93] fix: long chains of operators, indexes or calls
 exceeded the recursion limit; report code that is still nested too deeply

---
 run_shrinko.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/run_shrinko.py b/run_shrinko.py
index 5e035ae..d368eff 100644
--- a/run_shrinko.py
+++ b/run_shrinko.py
@@ -746,6 +746,10 @@ def create_main(lang):
     def main(raw_args=None):
         try:
             raw_args = default(raw_args, sys.argv[1:])
+            
+            # code can be nested as deeply as its length allows (e.g. a long chain of operators)
+            if sys.version_info >= (3, 11): # else, python frames take C stack space
+                sys.setrecursionlimit(max(sys.getrecursionlimit(), 100000))
 
             if not raw_args: # help is better than usage
                 parser.print_help(sys.stderr)
@@ -760,6 +764,10 @@ def create_main(lang):
                 return ErrCodes.include
             else:
                 return ErrCodes.fail
+        except RecursionError:
+            sys.stdout.flush()
+            eprint("ERROR: code is nested too deeply")
+            return ErrCodes.fail
     return main
 
 if __name__ == "__main__":
-- 
2.43.0


From 4ed3cd22616efd44726ff81989f909b566bd731e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:49 +0000
Subject: [PATCH 14/93] fix: crash when closing nested shorthands at the end of
 the code without minifying spaces

---
 pico_output.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pico_output.py b/pico_output.py
index c97463b..675b70f 100644
--- a/pico_output.py
+++ b/pico_output.py
@@ -272,7 +272,7 @@ def is_non_nested_short(node):
 
 def get_orig_wspace(pre, post, ctxt, allow_linebreaks, need_linebreak=False):
     source = default(pre.source, post.source)
-    text = source.text[pre.endidx:post.idx]
+    text = source.text[pre.endidx:post.idx] if source else "" # (no source if both were inserted at the end)
     
     if text and not text.isspace():
         tokens, _ = tokenize(Source("<output>", text), lang=ctxt.lang) # TODO: optimize?
-- 
2.43.0


From 82c2110ca92e8b5aa135d062383a6008bee1380c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:49 +0000
Subject: [PATCH 15/93] fix: a shorthand body must not begin with a do block
 even after removing semicolons before it

---
 pico_minify.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pico_minify.py b/pico_minify.py
index cd24234..aa5c35a 100644
--- a/pico_minify.py
+++ b/pico_minify.py
@@ -123,7 +123,7 @@ def analyze_code_for_minify(root, focus, ctxt, safe_builtins):
                     
                     if i == 0:
                         # a shorthand cannot begin with a do block. (would be a longhand)
-                        starts_with_do = body.first_token().value == "do"
+                        starts_with_do = bool(body.stmts) and body.stmts[0].type == NodeType.do # (';'s before it may be removed)
                 
                 # empty bodies require extra ';'s to shorten, which worsens compression
                 to_short = allow_shorthand and not (has_empties and not focus.chars) and not starts_with_do
@@ -481,7 +481,8 @@ def minify_code(ctxt, root, minify_opts):
 
             if token.value == ";" and token.parent.type == NodeType.block and token.next_token().value != "(":
                 gparent = token.parent.parent
-                if not (gparent and is_short_block_stmt(gparent) and not token.parent.stmts):
+                stmts = token.parent.stmts
+                if not (gparent and is_short_block_stmt(gparent) and (not stmts or stmts[0] is token.next_sibling() and stmts[0].type == NodeType.do)):
                     token.erase()
                     return
 
-- 
2.43.0


From b495ac318297781296c788545623d8c1306c84d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:52 +0000
Subject: [PATCH 16/93] fix: null characters in code were stored damaged
 (literal blocks, uncompressed code)

---
 pico_cart.py     |  2 +-
 pico_compress.py | 21 ++++++++++++++-------
 2 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/pico_cart.py b/pico_cart.py
index c4a6682..659bf57 100644
--- a/pico_cart.py
+++ b/pico_cart.py
@@ -158,7 +158,7 @@ def write_cart_to_tiny_rom(cart, force_compress=False, keep_compression=False, *
         else:
             compress_code(w, cart.code, force_compress=True, **opts)
 
-            if len(io.getvalue()) > len(cart.code):
+            if len(io.getvalue()) > len(cart.code) and "\0" not in cart.code:
                 io = BytesIO(encode_p8str(cart.code))
 
         return io.getvalue()
diff --git a/pico_compress.py b/pico_compress.py
index 88eb30e..9300572 100644
--- a/pico_compress.py
+++ b/pico_compress.py
@@ -415,7 +415,7 @@ def compress_code(w, code, size_handler=None, debug_handler=None, force_compress
     is_new = not old_compress
     min_c = 3
     
-    if len(code) >= k_code_size or force_compress: # (>= due to null)
+    if len(code) >= k_code_size or force_compress or "\0" in code: # (>= due to null)
         start_pos = w.pos()
         w.bytes(k_new_compressed_code_header if is_new else k_old_compressed_code_header)
         w.u16(len(code) & 0xffff) # only throw under fail_on_error below
@@ -537,12 +537,18 @@ def compress_code(w, code, size_handler=None, debug_handler=None, force_compress
                 update_mtf(mtf, ch_i, ch)
 
             def write_litblock(str):
-                bw.bit(0); bw.bit(1); bw.bit(0)
-                bw.bits(10, 0)
-
-                for ch in str:
-                    bw.bits(8, ord(ch))
-                bw.bits(8, 0)
+                for i, part in enumerate(str.split("\0")):
+                    if i > 0: # a null ends the block, so it can't be inside it
+                        write_literal("\0")
+                    if not part:
+                        continue
+
+                    bw.bit(0); bw.bit(1); bw.bit(0)
+                    bw.bits(10, 0)
+
+                    for ch in part:
+                        bw.bits(8, ord(ch))
+                    bw.bits(8, 0)
             
             def get_cheaper_c(c):
                 return round_down(c - min_c, 7) - 1 + min_c
@@ -608,6 +614,7 @@ def compress_code(w, code, size_handler=None, debug_handler=None, force_compress
             print_compressed_size(size, handler=size_handler)
         
         if fail_on_error:
+            check(is_new or "\0" not in code, "cart has null characters, which the old compression scheme can't hold!")
             check(len(code) < 0x10000, "cart has too many characters!")
             check(size <= k_code_size, "cart takes too much compressed space!")
         
-- 
2.43.0


From 45a82e394e6d7c3f736e89e0e6da676fabedea7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:19 +0000
Subject: [PATCH 17/93] fix: code compressed with the old scheme couldn't be
 read back when nothing follows it (tiny roms)

---
 pico_compress.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pico_compress.py b/pico_compress.py
index 9300572..916def8 100644
--- a/pico_compress.py
+++ b/pico_compress.py
@@ -109,7 +109,7 @@ def uncompress_code(r, max_code_size=k_code_size, size_handler=None, debug_handl
         if debug_handler: debug_handler.init(r, str)
 
         code = []
-        while True:
+        while len(code) < unc_size: # (nothing else marks the end in e.g. tiny roms)
             ch = r.u8()
             if ch == 0x00:
                 ch2 = r.u8()
@@ -152,16 +152,20 @@ def get_compressed_size(r, max_code_size=k_code_size):
         return r.u16() # compressed size
 
     elif header == k_old_compressed_code_header:
-        r.u16()
+        unc_size = r.u16()
         r.u16()
         
-        while True:
+        size = 0
+        while size < unc_size:
             ch = r.u8()
             if ch == 0:
                 if r.u8() == 0:
                     break
+                size += 1
             elif ch > 0x3b:
-                r.u8()
+                size += (r.u8() >> 4) + 2
+            else:
+                size += 1
 
         return r.pos() - start_pos
 
-- 
2.43.0


From 90f75f5601c048b24bfc504c1de31a32617eb273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:47 +0000
Subject: [PATCH 18/93] fix: accept a 15 bit offset of 1 when uncompressing
 (only the 10 bit one starts a literal block)

---
 pico_compress.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pico_compress.py b/pico_compress.py
index 916def8..41a6090 100644
--- a/pico_compress.py
+++ b/pico_compress.py
@@ -75,8 +75,7 @@ def uncompress_code(r, max_code_size=k_code_size, size_handler=None, debug_handl
                 offlen = (5 if br.bit() else 10) if br.bit() else 15                
                 offset = br.bits(offlen) + 1
 
-                if offset == 1 and offlen != 5:
-                    assert offlen == 10
+                if offset == 1 and offlen == 10:
                     startlen = len(code)
                     while True:
                         ch = br.bits(8)
-- 
2.43.0


From 674091b332a47c7c4b2b250b2618146cf73344b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:15 +0000
Subject: [PATCH 19/93] fix: old compression of long runs could produce matches
 shorter than allowed (and crash)

---
 pico_compress.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pico_compress.py b/pico_compress.py
index 41a6090..3814063 100644
--- a/pico_compress.py
+++ b/pico_compress.py
@@ -229,7 +229,7 @@ def get_lz77(code, min_c=3, max_c=0x7fff, max_o=0x7fff, measure=None, min_cost=N
                     if no_repeat:
                         c = min(c, i - j)
                     
-                    if not (max_o != None and j < i - max_o):
+                    if c >= min_c and not (max_o != None and j < i - max_o):
                         best_c, best_j = c, j
                 
             return best_c, best_j
-- 
2.43.0


From 39933881963c58fc8f567e1b5e896d74ed53b3f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:16 +0000
Subject: [PATCH 20/93] fix: old compression of long runs took cubic time

---
 pico_compress.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pico_compress.py b/pico_compress.py
index 3814063..a2305a6 100644
--- a/pico_compress.py
+++ b/pico_compress.py
@@ -211,6 +211,8 @@ def get_lz77(code, min_c=3, max_c=0x7fff, max_o=0x7fff, measure=None, min_cost=N
     def get_match_length(left, left_i, right, right_i, min_c):
         c = min_c
         limit = min(len(left) - left_i, len(right) - right_i)
+        if max_c != None:
+            limit = min(limit, max_c)
         while c < limit and left[left_i + c] == right[right_i + c]:
             c += 1
         return c
-- 
2.43.0


From 2648a5ff353fd6af66822e41e068bad5f479d2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:45 +0000
Subject: [PATCH 21/93] fix: count the tokens of the output as they are spaced
 in it

---
 pico_process.py  |    5 +-
 pico_tokenize.py | 1858 +++++++++++++++++++++++-----------------------
 2 files changed, 935 insertions(+), 928 deletions(-)

diff --git a/pico_process.py b/pico_process.py
index b12336b..21e24b0 100644
--- a/pico_process.py
+++ b/pico_process.py
@@ -385,6 +385,9 @@ def process_code(ctxt, source, input_count=False, count=False, lint=False, minif
             if count:
                 assert not source.is_super
                 new_tokens = root.get_tokens() if need_parse else tokens
+                if (need_minify or need_unminify) and not has_count_stop(new_tokens):
+                    # the spacing that was output may matter (for negative numbers)
+                    new_tokens, _ = tokenize(Source(source.path, source.text), None)
                 print_token_count(count_tokens(new_tokens), handler=count)
 
     return True, errors
@@ -413,7 +416,7 @@ def echo_code(code, ctxt, echo=True):
     else:
         file_write_maybe_text(echo, code)    
 
-from pico_tokenize import tokenize, count_tokens
+from pico_tokenize import tokenize, count_tokens, has_count_stop
 from pico_parse import parse, create_super_root, get_sub_root
 from pico_lint import lint_code
 from pico_minify import minify_code, Focus
diff --git a/pico_tokenize.py b/pico_tokenize.py
index b30cd2f..c21fecb 100644
--- a/pico_tokenize.py
+++ b/pico_tokenize.py
@@ -1,927 +1,931 @@
-from utils import *
-from pico_preprocess import k_wspace
-from pico_defs import Language, k_fixnum_mask, num_to_fixnum, num_to_luaint, is_luaint_in_range
-
-keywords = {
-    "and", "break", "do", "else", "elseif", "end", "false", 
-    "for", "function", "goto", "if", "in", "local", "nil", 
-    "not", "or", "repeat", "return", "then", "true", "until",
-    "while"
-}
-
-def split_hint_args(data, ctxt=None):
-    name, args = list_unpack(data.strip().split(" ", 1), 2, "")
-    name, args = name.strip(), args.strip()
-    if ctxt and ctxt.map_aliases:
-        name, args = ctxt.map_aliases(name, args)
-    return name, args
-
-class StopTraverse(BaseException):
-    pass
-
-k_skip_children = True # value returnable from traverse's pre-function
-
-class KeepCommentFlags(Bitmask):
-    first = last = ...
-
-class TokenNodeBase:
-    """Baseclass for syntax Tokens, syntax Nodes, and Comments.
-    The syntax tree is comprised of these and can be traversed via traverse_nodes or traverse_tokens"""
-
-    def __init__(m):
-        m.parent, m.children = None, ()
-
-    def __repr__(m):
-        return "%s(type=%s)" % (typename(m), m.type)
-
-    def __str__(m):
-        reprlist = []
-        for key, val in m.__dict__.items():
-            if key in ("parent", "children", "idx", "endidx", "vline", "lang", "modified", "source",
-                       "scope", "extra_i", "extra_children", "stmts", "globals", "members"):
-                continue
-            reprlist.append("%s=%r" % (key, val))
-        return "%s(%s)" % (typename(m), ", ".join(reprlist))
-    
-    @property
-    def source_text(m):
-        if m.source and m.idx != None and m.endidx != None:
-            return m.source.text[m.idx:m.endidx]
-        else:
-            return None
-    
-    def find_parent(m, type):
-        parent = m.parent
-        while parent and parent.type != type:
-            parent = parent.parent
-        return parent
-
-    def _sibling(m, delta):
-        parent = m.parent
-        if parent is None:
-            return None
-        i = parent.children.index(m) + delta
-        return list_get(parent.children, i)
-
-    def next_sibling(m): return m._sibling(1)
-    def prev_sibling(m): return m._sibling(-1)
-
-    def _adjacent(m, delta):
-        while m:
-            sib = m._sibling(delta)
-            if sib:
-                return sib
-            m = m.parent
-        return None
-
-    def _find_token(m, delta, adjacent=False):
-        i = 0 if delta > 0 else -1
-        if adjacent:
-            m = m._adjacent(delta)
-        while isinstance(m, Node):
-            if m.children:
-                m = m.children[i]
-            else:
-                m = m._adjacent(delta)
-        return m if m else Token.none
-
-    def next_token(m): return m._find_token(1, adjacent=True)
-    def prev_token(m): return m._find_token(-1, adjacent=True)
-
-    def first_token(m): return m._find_token(1)
-    def last_token(m): return m._find_token(-1)
-
-    def find_or_create_token(m, child_i=0, last=False):
-        for_child = child_i < len(m.children) and not last
-        if for_child:
-            m = m.children[child_i]
-        token = m.first_token() if for_child else m.next_token()
-        is_after = True
-        if token is Token.none:
-            token = m.next_token() if for_child else m.last_token()
-            is_after = for_child
-            if token is Token.none:
-                token = m.prev_token()
-                is_after = False
-                if token is Token.none:
-                    token = Token.dummy(m.source)
-                    # we should only reach here when m is an empty node of some kind
-                    m.append_existing(token)
-        return token, is_after
-
-    def traverse_nodes(m, pre=None, post=None, tokens=None, extra=False):
-        skip = pre(m) if pre else None
-        if not skip:
-            for child in m.children:
-                if isinstance(child, Node):
-                    child.traverse_nodes(pre, post, tokens, extra)
-                elif tokens:
-                    tokens(child)
-            if extra and hasattr(m, "extra_children"):
-                for child in m.extra_children:
-                    child.traverse_nodes(pre, post, tokens, extra)
-        if post: post(m)
-
-    def traverse_tokens(m, visit):
-        if isinstance(m, Token):
-            visit(m)
-        else:
-            for child in m.children:
-                if isinstance(child, Node):
-                    child.traverse_tokens(visit)
-                else:
-                    visit(child)
-    
-    def traverse_parents(m, visit):
-        parent = m.parent
-        while parent:
-            visit(parent)
-            parent = parent.parent
-
-    def collect_comments(m, irrelevant=False, flags=None):
-        comments = []
-        def visit(token):
-            nonlocal comments
-            comments += token.children
-        
-        if isinstance(flags, KeepCommentFlags):
-            first_token = m.first_token() if flags.first else None
-            last_token = m.last_token() if flags.last else None
-            if first_token:
-                visit(first_token)
-            if last_token and last_token != first_token:
-                visit(last_token)
-        else:
-            m.traverse_tokens(visit)
-
-        if irrelevant:
-            comments = [c for c in comments if c.hint != CommentHint.auto]
-        return comments
-
-    def add_extra_child(m, child):
-        if not hasattr(m, "extra_children"):
-            m.extra_children = []
-        child.parent = m
-        child.extra_i = len(m.extra_children)
-        m.extra_children.append(child)
-    
-    def is_extra_child(m):
-        return hasattr(m, "extra_i")
-    
-    def move(m): # create a "destructive" copy - old object is no longer usable unless replaced
-        cpy = copy(m)
-        for child in cpy.children:
-            child.parent = cpy
-        m.erase()
-        return cpy
-
-    def copy(m):
-        cpy = copy(m)
-        cpy.children = [child.copy() for child in m.children]
-        for child in cpy.children:
-            child.parent = cpy
-        for key, val in cpy.__dict__.items():
-            idx = list_find(m.children, val)
-            if idx >= 0:
-                cpy.__dict__[key] = cpy.children[idx]
-        return cpy
-
-class TokenType(Enum):
-    number = string = ident = keyword = punct = ...
-    compiler = ... # special
-
-class Token(TokenNodeBase):
-    """A pico8 token, at 'source'.text['idx':'endidx'] (which is equal to its 'value'). Its 'type' is a TokenType.
-    For number/string tokens, the actual value is 'parsed_value'
-    Its children are the comments *before* it, if any."""
-
-    def __init__(m, type, value, source, idx, endidx, vline, lang, modified=False):
-        super().__init__()
-        m.type, m.value, m.source, m.idx, m.endidx, m.vline, m.lang, m.modified = type, value, source, idx, endidx, vline, lang, modified
-    
-    def check(m, expected):
-        if isinstance(expected, tuple):
-            assert m.value in expected
-        else:
-            assert m.value == expected
-
-    def modify(m, value, expected=None):
-        if expected != None:
-            m.check(expected)
-        m.value = value
-        m.modified = True
-        lazy_property.clear(m, "parsed_value")
-    
-    def erase(m, expected=None):
-        if expected != None:
-            m.check(expected)
-        m.type, m.value, m.modified = None, None, True
-
-    def add_comments(m, comments, first=False):
-        if m.children == ():
-            m.children = []
-        if first:
-            m.children[0:0] = comments
-        else:
-            m.children += comments
-    
-    def remove_comments(m):
-        m.children = ()
-
-    @lazy_property
-    def parsed_value(m):
-        if m.type == TokenType.number:
-            if m.lang == Language.picotron:
-                return parse_luanum(m.value)
-            else:
-                return parse_fixnum(m.value)
-        elif m.type == TokenType.string:
-            return parse_string_literal(m.value, m.lang)
-        else:
-            return None
-
-    @classmethod
-    def dummy(cls, source):
-        idx = len(source.text) if source else 0
-        vline = sys.maxsize if source else 0
-        return cls(None, None, source, idx, idx, vline, None)
-
-    @classmethod
-    def synthetic(cls, type, value, other, append=False, prepend=False):
-        idx = other.endidx if append else other.idx
-        endidx = other.idx if prepend else other.endidx
-        return cls(type, value, other.source, idx, endidx, other.vline, other.lang, modified=True)
-
-Token.none = Token.dummy(None)
-
-class ConstToken(Token):
-    def __init__(m, type, parsed_value, other):
-        super().__init__(type, None, other.source, other.idx, other.endidx, other.vline, other.lang, modified=True)
-        m.parsed_value = parsed_value
-        lazy_property.clear(m, "value")
-
-    @lazy_property
-    def value(m): # used during going over chars for rename (tsk...) and for output when not minify-tokens
-                  # (but not used for output under minify-tokens)
-        if isinstance(m.parsed_value, (int, float)):
-            allow_unary = can_replace_with_unary(m.parent) if m.parent else True
-            format_num = format_fixnum if m.lang == Language.pico8 else format_luanum
-            return format_num(m.parsed_value, sign=None if allow_unary else "")
-        else:
-            return format_string_literal(m.parsed_value, long=False)
-
-    @post_property_change
-    def parent(m, old, new):
-        lazy_property.clear(m, "value")
-
-class CommentHint(Enum):
-    none = auto = preserve = lint = keep = ...
-
-k_keep_prefix = "keep:"
-
-class Comment(TokenNodeBase):
-    """A pico8 comment, optionally holding some kind of hint"""
-
-    def __init__(m, isblock, hint, hintdata=None, hintprefix="", source=None, idx=None, endidx=None, vline=None, modified=False):
-        super().__init__()
-        m.isblock, m.hint, m.hintdata, m.hintprefix = isblock, hint, hintdata, hintprefix
-        m.source, m.idx, m.endidx, m.vline, m.modified = source, idx, endidx, vline, modified
-
-    def modify(m, value):
-        m.value = value
-        m.modified = True
-
-    @property
-    def value(m):
-        return m.source_text
-
-def is_ident_char(ch, lang=Language.pico8):
-    return ('0' <= ch <= '9' or 'a' <= ch <= 'z' or 'A' <= ch <= 'Z' or ch == '_' or
-            (lang == Language.pico8 and (ch in ('\x1e', '\x1f') or ch >= '\x80')))
-
-def is_identifier(str, lang=Language.pico8):
-    return str and all(is_ident_char(ch, lang) for ch in str) and not str[:1].isdigit() and str not in keywords
-    
-k_identifier_split_re = r"([0-9A-Za-z_\x1e\x1f\x80-\xff]+)"
-
-k_hint_split_re = re.compile(r"[\s,]+")
-
-class NextTokenMods:
-    def __init__(m):
-        m.var_kind = m.keys_kind = m.is_const = m.func_kind = m.merge_prev = m.force_safe = m.sublang = m.rename = m.placeholder = None
-        m.comments = None
-        
-    def add_comment(m, cmt):
-        if m.comments is None:
-            m.comments = []
-        m.comments.append(cmt)
-
-def tokenize(source, ctxt=None, all_comments=False, lang=None, inner=False):
-    text = source.text
-    idx = 0
-    vline = 0
-    tokens = []
-    errors = []
-    real_tokens = None
-    next_mods = None
-    if lang is None:
-        lang = ctxt.lang if ctxt else Language.pico8
-    
-    is_pico8 = lang == Language.pico8
-    is_picotron = lang == Language.picotron
-
-    def peek(off=0):
-        i = idx + off
-        return text[i] if 0 <= i < len(text) else ''
-
-    def take():
-        nonlocal idx
-        ch = peek()
-        idx += 1
-        return ch
-
-    def accept(ch,):
-        nonlocal idx
-        if peek() == ch:
-            idx += 1
-            return True
-        return False
-
-    def accept_one_of(*chs):
-        nonlocal idx
-        if peek() in chs:
-            idx += 1
-            return True
-        return False
-
-    def get_next_mods():
-        nonlocal next_mods
-        if next_mods is None:
-            next_mods = NextTokenMods()
-        return next_mods
-
-    def add_token(type, start, end_off=0, value=None):
-        end = idx + end_off
-        if value is None and type is not None: # (dummy tokens have type==value==None)
-            value = text[start:end]
-        token = Token(type, value, source, start, end, vline, lang)
-        tokens.append(token)
-        
-        nonlocal next_mods
-        if next_mods != None:
-            add_next_mods(token, next_mods)
-            next_mods = None
-        return token
-
-    def add_error(msg, off=-1):
-        add_token(None, idx + off) # error token
-        errors.append(Error(msg, tokens[-1]))
-
-    def add_dyn_include(include_data):
-        if ctxt and ctxt.include_getter and not ctxt.ignore_transforms:
-            include_name, include_args = split_hint_args(include_data, ctxt)
-            include_func = ctxt.include_getter(include_name)
-            if include_func:
-                included_str = include_func(args=include_args, ctxt=ctxt)
-                if included_str != None:
-                    included_tokens, included_errors = tokenize(Source(include_name, included_str), ctxt, all_comments, inner=True)
-                    tokens.extend(included_tokens)
-                    errors.extend(included_errors)
-                    return
-            eprint("warning - ignoring unrecognized dynamic include '%s'" % include_name)
-
-    def add_sublang(token, sublang_data):
-        if ctxt and ctxt.sublang_getter and token.type == TokenType.string:
-            sublang_name, sublang_args = split_hint_args(sublang_data, ctxt)
-
-            sublang_cls = ctxt.sublang_getter(sublang_name)
-            if sublang_cls:
-                add_lang_error = lambda msg: add_error(f"{sublang_name}: {msg}")
-                token.sublang_name = sublang_name
-                token.sublang = sublang_cls(token.parsed_value, args=sublang_args,
-                                            ctxt=ctxt, on_error=add_lang_error)
-            else:
-                eprint("warning - ignoring unrecognized language '%s'" % sublang_name)
-
-    def switch_compiler(compiler_data):
-        nonlocal real_tokens, tokens
-        if real_tokens != None:
-            real_tokens, tokens = None, real_tokens
-
-        if compiler_data != None:
-            if ctxt and ctxt.compiler_getter and not ctxt.ignore_transforms:
-                compiler_name, compiler_args = split_hint_args(compiler_data, ctxt)
-                if compiler_name != "none":
-                    compiler_cls = ctxt.compiler_getter(compiler_name)
-                    if compiler_cls:
-                        curr_compiler = compiler_cls(args=compiler_args, ctxt=ctxt, src=source)
-                        for dyn_include in curr_compiler.get_dynamic_includes():
-                            add_dyn_include(dyn_include)
-                        
-                        compiler_token = add_token(TokenType.compiler, idx, value="`compiler`")
-                        compiler_token.compiler_name = compiler_name
-                        compiler_token.compiler = curr_compiler
-                        compiler_token.compiler_tokens = []
-                        real_tokens, tokens = tokens, compiler_token.compiler_tokens
-
-                    else:
-                        eprint("warning - ignoring unrecognized compiler '%s'" % compiler_name)
-
-    def add_next_mods(token, mods):
-        if mods.comments != None:
-            token.children = mods.comments        
-        if mods.var_kind != None:
-            token.var_kind = mods.var_kind
-        if mods.keys_kind != None:
-            token.keys_kind = mods.keys_kind
-        if mods.is_const != None:
-            token.is_const = mods.is_const
-        if mods.func_kind != None:
-            token.func_kind = mods.func_kind
-        if mods.merge_prev != None:
-            token.merge_prev = mods.merge_prev
-        if mods.force_safe != None:
-            token.force_safe = mods.force_safe
-        if mods.rename != None:
-            token.rename = mods.rename
-        if mods.placeholder != None:
-            token.placeholder_name, token.placeholder_args = split_hint_args(mods.placeholder[0], ctxt)
-            token.placeholder_expr = mods.placeholder[1]
-            if not (token.type == TokenType.string if token.placeholder_expr else token.value == 'do'):
-                eprint(f"invalid usage of $placeholder: {token.placeholder_name}")
-        if mods.sublang != None:
-            add_sublang(token, mods.sublang)
-
-    def process_comment(orig_idx, comment, isblock):
-        hint, hintdata, hintprefix = CommentHint.none, None, ""
-
-        if ctxt and ctxt.hint_comments:
-            proper = False
-            if comment.startswith("$"):
-                comment = comment[1:]
-                hintprefix = "$"
-                proper = True
-
-            if comment.startswith("lint:"):
-                lints = k_hint_split_re.split(str_after_first(comment, ":"))
-                lints = [lint for lint in lints if lint]
-                hint, hintdata = CommentHint.lint, lints
-
-                for lint in lints:
-                    if lint.startswith("func::"):
-                        get_next_mods().func_kind = str_after_first(lint, "::")
-
-            elif comment.startswith("preserve:"):
-                preserves = k_hint_split_re.split(str_after_first(comment, ":"))
-                preserves = [preserve for preserve in preserves if preserve]
-                hint, hintdata = CommentHint.preserve, preserves
-
-            elif comment.startswith(k_keep_prefix):
-                hint = CommentHint.keep
-                
-            elif comment.startswith("dynamic-include:") and proper:
-                add_dyn_include(str_after_first(comment, ":"))
-                hint = CommentHint.auto
-            
-            elif (comment.startswith("def-alias:") and proper) or comment.startswith("deflanguage:"): # deflanguage is deprecated
-                alias_name, alias_value = list_unpack(str_after_first(comment, ":").split("=", 1), 2, "")
-                dest_name, dest_args = split_hint_args(alias_value, ctxt)
-                if ctxt and ctxt.add_custom_alias:
-                    ctxt.add_custom_alias(alias_name.strip(), dest_name, dest_args)
-                hint = CommentHint.auto
-                
-            elif comment.startswith("switch-compiler:") and proper:
-                switch_compiler(str_after_first(comment, ":"))
-                hint = CommentHint.auto
-
-            elif isblock:
-                hint = CommentHint.auto
-                if comment in ("global", "nameof"): # nameof is deprecated
-                    get_next_mods().var_kind = VarKind.global_
-                elif comment in ("member", "memberof"): # memberof is deprecated
-                    get_next_mods().var_kind = VarKind.member
-                elif comment in ("preserve", "string"): # string is deprecated
-                    get_next_mods().var_kind = False
-                elif comment == "global-keys":
-                    get_next_mods().keys_kind = VarKind.global_
-                elif comment == "member-keys":
-                    get_next_mods().keys_kind = VarKind.member
-                elif comment in ("preserve-keys", "string-keys"): # string-keys is deprecated
-                    get_next_mods().keys_kind = False
-                elif comment == "no-merge":
-                    get_next_mods().merge_prev = False
-                elif comment == "const":
-                    get_next_mods().is_const = True
-                elif comment == "non-const":
-                    get_next_mods().is_const = False
-                elif comment == "force-safe":
-                    get_next_mods().force_safe = True
-                elif comment.startswith("language::"):
-                    get_next_mods().sublang = str_after_first(comment, "::")
-                elif comment.startswith("rename::") and not any(ch.isspace() for ch in comment):
-                    get_next_mods().rename = str_after_first(comment, "::")
-                elif comment.startswith("placeholder-expr::") and proper:
-                    get_next_mods().placeholder = (str_after_first(comment, "::"), True)
-                elif comment.startswith("placeholder-stmt::") and proper:
-                    get_next_mods().placeholder = (str_after_first(comment, "::"), False)
-                else:
-                    hint = CommentHint.none
-        
-            if proper and hint == CommentHint.none:
-                eprint(f"unrecognized $-comment '{comment}'")
-            # at some point, warn about improper comments and so on?
-
-        if all_comments or (hint != CommentHint.none and hint != CommentHint.auto):
-            get_next_mods().add_comment(Comment(isblock, hint, hintdata, hintprefix, source, orig_idx, idx, vline))
-        
-    def tokenize_line_comment():
-        nonlocal vline
-        orig_idx = idx
-        while take() not in ('\n', ''): pass
-
-        process_comment(orig_idx - 2, text[orig_idx:idx], isblock=False)
-        vline += 1
-
-    def tokenize_long_brackets(off):
-        nonlocal idx
-        idx += off
-        orig_idx = idx
-
-        if accept('['):
-            pad_idx = idx
-            while accept('='): pass
-            pad = text[pad_idx:idx]
-
-            if accept('['):
-                start_i = idx
-                end_i = text.find(f"]{pad}]", idx)
-                if end_i >= 0:
-                    idx = end_i + len(pad) + 2
-                    return True, orig_idx, start_i, end_i
-                
-                add_error("Unterminated long comment (no longer accepted by pico8)", 0)
-        
-        return False, orig_idx, None, None
-
-    def tokenize_long_comment():
-        nonlocal idx
-        ok, orig_idx, start, end = tokenize_long_brackets(0)
-        if ok:
-            process_comment(orig_idx - 2, text[start:end], isblock=True)
-        else:
-            idx = orig_idx
-        return ok
-
-    def tokenize_number(off):
-        nonlocal idx
-        idx += off
-        orig_idx = idx
-
-        if is_picotron:
-            is_hex = peek() == '0' and peek(1) in ('x', 'X')
-
-            while True:
-                ch = peek()
-                if (is_ident_char(ch, lang) or ch == '.' or
-                        (ch in ('-', '+') and peek(-1) in (('p', 'P') if is_hex else ('e', 'E')))):
-                    idx += 1
-                else:
-                    break
-
-        else:
-            ch = peek()
-            if ch == '0' and peek(1) in ('b', 'B'):
-                idx += 2
-                digits = "01"
-            elif ch == '0' and peek(1) in ('x', 'X'):
-                idx += 2
-                digits = "0123456789aAbBcCdDeEfF"
-            else:
-                digits = "0123456789"
-
-            while True:
-                ch = peek()
-                if ch and ch in digits:
-                    idx += 1
-                elif ch == '.':
-                    idx += 1
-                else:
-                    break
-
-        add_token(TokenType.number, orig_idx)
-
-    def tokenize_ident(off):
-        nonlocal idx
-        idx += off
-        orig_idx = idx
-        
-        while is_ident_char(peek(), lang):
-            idx += 1
-            
-        if text[orig_idx:idx] in keywords:
-            add_token(TokenType.keyword, orig_idx)
-        else:
-            add_token(TokenType.ident, orig_idx)
-
-    def tokenize_string(off):
-        nonlocal idx
-        orig_idx = idx + off
-        idx = orig_idx + 1
-        quote = text[orig_idx]
-
-        while True:
-            ch = take()
-            if ch in ('\n', ''):
-                add_error("Unterminated string", orig_idx - idx)
-                break
-            elif ch == '\\':
-                if accept('z'): # skip line breaks
-                    while peek() and peek() in k_wspace:
-                        take()
-                else:
-                    take() # at least
-            elif ch == quote:
-                break
-
-        add_token(TokenType.string, orig_idx)
-
-    def tokenize_long_string(off):
-        ok, orig_idx, _, _ = tokenize_long_brackets(off)
-        if ok:
-            add_token(TokenType.string, orig_idx)
-        else:
-            add_error("Invalid long brackets")
-    
-    if ctxt and ctxt.default_compiler and not inner:
-        switch_compiler(ctxt.default_compiler)
-
-    while idx < len(text):
-        ch = take()
-
-        if ch in k_wspace: # whitespace
-            if ch == "\n":
-                vline += 1
-
-        elif '0' <= ch <= '9' or (ch == '.' and '0' <= peek() <= '9'): # number
-            tokenize_number(-1)
-
-        elif is_ident_char(ch, lang): # identifier
-            tokenize_ident(-1)
-
-        elif ch in ('"', "'"): # string
-            tokenize_string(-1)
-
-        elif ch == '[' and accept_one_of('=', '['): # long string
-            tokenize_long_string(-2)
-
-        elif ch == '-' and accept('-'): # comment
-            if not tokenize_long_comment():
-                tokenize_line_comment()
-
-        elif ch == '/' and is_pico8 and accept('/'): # c-style comment
-            tokenize_line_comment()
-
-        elif ch in "+-*/\\%&|^<>=~#()[]{};,?@$.:": # punctuation
-            orig_idx = idx - 1
-            if ch in ".:/^<>" and accept(ch):
-                if ch in (".>" if is_pico8 else ".") and accept(ch):
-                    if ch == ">": accept('=')
-                elif ch in "<>" and is_pico8 and accept(">" if ch == "<" else "<"):
-                    accept('=')
-                elif ch in "./^<>":
-                    accept('=')
-            elif ch in "+-*/\\%&|^<>=~":
-                accept('=')
-            add_token(TokenType.punct, orig_idx)
-
-        elif ch == '!' and accept('='): # alt. punctuation
-            add_token(TokenType.punct, idx - 2)
-
-        else:
-            add_error("invalid character")
-    
-    if (next_mods or all_comments) and not inner:
-        add_token(None, idx) # end token, for ending whitespace/comments/etc (TBD: lost if inner...)
-
-    if real_tokens != None:
-        switch_compiler(None)
-    return tokens, errors
-    
-
-def count_tokens(tokens):
-    count = 0
-    for i, token in enumerate(tokens):
-        if token.children:
-            for comment in token.children:
-                if comment.hint == CommentHint.lint and "count::stop" in comment.hintdata:
-                    return count
-
-        if token.value in (",", ".", ":", ";", "::", ")", "]", "}", "end", "local", None):
-            continue
-
-        if (token.value in ("-", "~") and i+1 < len(tokens) and tokens[i+1].type == TokenType.number and
-                token.endidx == tokens[i+1].idx and
-                i-1 >= 0 and tokens[i-1].type not in (TokenType.number, TokenType.string, TokenType.ident) and
-                tokens[i-1].value not in (")", "]", "}", ";", "end")):
-            continue
-
-        count += 1
-    return count
-
-def parse_fixnum(origstr):
-    """parse a fixnum from a pico8 string"""
-    str = origstr.lower()
-    
-    neg = bnot = False
-    if str.startswith("-"):
-        str = str[1:]
-        neg = True
-    elif str.startswith("~"):
-        str = str[1:]
-        bnot = True
-
-    digits = "0123456789"
-    if str.startswith("0x"):
-        digits += "abcdef"
-        str = str[2:]
-    elif str.startswith("0b"):
-        digits = "01"
-        str = str[2:]
-    base = len(digits)
-
-    value = 0
-    while str and str[0] in digits:
-        value = (value * base) + digits.index(str[0])
-        str = str[1:]
-
-    if str and str[0] == '.':
-        str = str[1:]
-        dotvalue = 0
-        dotdigits = 0
-        while str and str[0] in digits:
-            dotvalue = (dotvalue * base) + digits.index(str[0])
-            dotdigits += 1
-            str = str[1:]
-        
-        value += dotvalue / (base ** dotdigits)
-    
-    if str:
-        throw(f"Invalid pico8 number: {origstr}")
-
-    fixnum = num_to_fixnum(value)
-    if neg:
-        fixnum = -fixnum & k_fixnum_mask
-    elif bnot:
-        fixnum = ~fixnum & k_fixnum_mask
-
-    return fixnum
-
-def parse_luanum(origstr):
-    str = origstr.lower()
-
-    neg = False
-    if str.startswith("-"):
-        str = str[1:]
-        neg = True
-
-    try:
-        if str.startswith("0x"):
-            if "." in str or "p" in str:
-                try:
-                    value = float.fromhex(str)
-                except OverflowError:
-                    value = float('inf')
-            else:
-                value = num_to_luaint(int(str, base=16))
-        
-        elif str.startswith("0b"):
-            # TODO: recheck this if ever fixed to support exponents?
-            # TODO: recheck this if current 0b2 through 0bf bug stays around, and support it if so?
-            dotpos = str.find(".")
-            if dotpos >= 0:
-                str = str_replace_at(str, dotpos, 1, "")
-            value = int(str, base=2)
-            if dotpos >= 0:
-                try:
-                    value = math.ldexp(value, dotpos - len(str))
-                except OverflowError:
-                    value = float('inf')
-            else:
-                value = num_to_luaint(value)
-            
-        else:
-            if "." in str or "e" in str:
-                value = float(str) # no OverflowError here
-            else:
-                value = int(str)
-                if is_luaint_in_range(value): # intentionally disregarding the possibility of 'neg'
-                    value = num_to_luaint(value)
-                else:
-                    value = float(value)
-    except ValueError:
-        throw(f"Invalid lua number: {origstr}")
-    
-    if neg:
-        value = -value
-    return value
-
-k_char_escapes = {
-    '*': '\1', '#': '\2', '-': '\3', '|': '\4', '+': '\5', '^': '\6',
-    'a': '\a', 'b': '\b', 't': '\t', 'n': '\n', 'v': '\v', 'f': '\f', 'r': '\r',
-    '\\': '\\', '"': '"', "'": "'", '\n': '\n',
-}
-
-def lang_chr(value, lang):
-    if lang == Language.pico8 or value < 0x80:
-        return chr(value)
-    else:
-        return chr(0xdc00 + value) # surrogate escape
-
-def ext_unicode_to_lang_str(value, lang):
-    if value < 0x80:
-        return lang_chr(value, lang)
-    
-    suffix = ""
-    count = 0
-    while value >= (0x40 >> count):
-        suffix = lang_chr(0x80 + (value & 0x3f), lang) + suffix
-        value >>= 6
-        count += 1
-    return lang_chr(((-0x80 >> count) & 0xff) + value, lang) + suffix
-
-def parse_char_escape(str, pos, lang):
-    "parse an escape sequence (pos is the position of the '\\', which isn't checked)"
-
-    esc = str_get(str, pos + 1)
-    esc_ch = k_char_escapes.get(esc)
-    if esc_ch:
-        return esc_ch, pos + 2
-
-    elif esc == 'z':
-        end = pos + 2
-        while str_get(str, end, 'x') in k_wspace:
-            end += 1
-        return "", end
-
-    elif esc == 'x':
-        end = pos + 4
-        hex_esc = str[pos + 2 : end]
-        value = maybe_int(hex_esc, base=16)
-        if value is None:
-            throw(f"Invalid hex escape: '{hex_esc}' in: '{str}'")
-        return lang_chr(value, lang), end
-
-    elif '0' <= esc <= '9':
-        end = pos + 2
-        while end < pos + 4 and '0' <= str_get(str, end, '') <= '9':
-            end += 1
-        dec_esc = str[pos + 1 : end]
-        value = maybe_int(dec_esc)
-        if value is None or value >= 256:
-            throw(f"Invalid dec escape: '{dec_esc}' in: '{str}'")
-        return lang_chr(value, lang), end
-
-    elif lang == Language.picotron and esc == 'u':
-        check(str_get(str, pos + 2) == "{", f"Invalid unicode escape in: '{str}'")
-        end = str.find("}", pos) + 1
-        check(end > 0, f"Unterminated unicode escape in: '{str}'")
-        uni_esc = str[pos + 3 : end - 1]
-        value = maybe_int(uni_esc, base=16)
-        if value is None or value >= 0x80000000:
-            throw(f"Invalid uni escape: '{uni_esc}' in: '{str}'")
-        return ext_unicode_to_lang_str(value, lang), end
-
-    else:
-        throw(f"Invalid escape: '{esc}' in: '{str}'")    
-
-def parse_string_literal(str, lang=Language.pico8):
-    """parse a pico8 string from a pico8 string literal"""
-    if str.startswith("["):
-        start = str.index("[", 1) + 1
-        lit = str[start:-start]
-        lit = re.sub(r"\n\r?|\r\n?", "\n", lit)
-        if lit.startswith('\n'):
-            lit = lit[1:]
-        return lit
-
-    else:
-        litparts = []
-        str = str[1:-1]
-        start = 0
-        while start < len(str):
-            end = str.find('\\', start)
-            if end < 0:
-                litparts.append(str[start:])
-                break
-
-            if end > start:
-                litparts.append(str[start:end])
-
-            esc, start = parse_char_escape(str, end, lang)
-            litparts.append(esc)
-                
-        return "".join(litparts)
-
-from pico_parse import Node, VarKind, can_replace_with_unary
-from pico_output import format_fixnum, format_luanum, format_string_literal
-from pico_process import Error, Source
+from utils import *
+from pico_preprocess import k_wspace
+from pico_defs import Language, k_fixnum_mask, num_to_fixnum, num_to_luaint, is_luaint_in_range
+
+keywords = {
+    "and", "break", "do", "else", "elseif", "end", "false", 
+    "for", "function", "goto", "if", "in", "local", "nil", 
+    "not", "or", "repeat", "return", "then", "true", "until",
+    "while"
+}
+
+def split_hint_args(data, ctxt=None):
+    name, args = list_unpack(data.strip().split(" ", 1), 2, "")
+    name, args = name.strip(), args.strip()
+    if ctxt and ctxt.map_aliases:
+        name, args = ctxt.map_aliases(name, args)
+    return name, args
+
+class StopTraverse(BaseException):
+    pass
+
+k_skip_children = True # value returnable from traverse's pre-function
+
+class KeepCommentFlags(Bitmask):
+    first = last = ...
+
+class TokenNodeBase:
+    """Baseclass for syntax Tokens, syntax Nodes, and Comments.
+    The syntax tree is comprised of these and can be traversed via traverse_nodes or traverse_tokens"""
+
+    def __init__(m):
+        m.parent, m.children = None, ()
+
+    def __repr__(m):
+        return "%s(type=%s)" % (typename(m), m.type)
+
+    def __str__(m):
+        reprlist = []
+        for key, val in m.__dict__.items():
+            if key in ("parent", "children", "idx", "endidx", "vline", "lang", "modified", "source",
+                       "scope", "extra_i", "extra_children", "stmts", "globals", "members"):
+                continue
+            reprlist.append("%s=%r" % (key, val))
+        return "%s(%s)" % (typename(m), ", ".join(reprlist))
+    
+    @property
+    def source_text(m):
+        if m.source and m.idx != None and m.endidx != None:
+            return m.source.text[m.idx:m.endidx]
+        else:
+            return None
+    
+    def find_parent(m, type):
+        parent = m.parent
+        while parent and parent.type != type:
+            parent = parent.parent
+        return parent
+
+    def _sibling(m, delta):
+        parent = m.parent
+        if parent is None:
+            return None
+        i = parent.children.index(m) + delta
+        return list_get(parent.children, i)
+
+    def next_sibling(m): return m._sibling(1)
+    def prev_sibling(m): return m._sibling(-1)
+
+    def _adjacent(m, delta):
+        while m:
+            sib = m._sibling(delta)
+            if sib:
+                return sib
+            m = m.parent
+        return None
+
+    def _find_token(m, delta, adjacent=False):
+        i = 0 if delta > 0 else -1
+        if adjacent:
+            m = m._adjacent(delta)
+        while isinstance(m, Node):
+            if m.children:
+                m = m.children[i]
+            else:
+                m = m._adjacent(delta)
+        return m if m else Token.none
+
+    def next_token(m): return m._find_token(1, adjacent=True)
+    def prev_token(m): return m._find_token(-1, adjacent=True)
+
+    def first_token(m): return m._find_token(1)
+    def last_token(m): return m._find_token(-1)
+
+    def find_or_create_token(m, child_i=0, last=False):
+        for_child = child_i < len(m.children) and not last
+        if for_child:
+            m = m.children[child_i]
+        token = m.first_token() if for_child else m.next_token()
+        is_after = True
+        if token is Token.none:
+            token = m.next_token() if for_child else m.last_token()
+            is_after = for_child
+            if token is Token.none:
+                token = m.prev_token()
+                is_after = False
+                if token is Token.none:
+                    token = Token.dummy(m.source)
+                    # we should only reach here when m is an empty node of some kind
+                    m.append_existing(token)
+        return token, is_after
+
+    def traverse_nodes(m, pre=None, post=None, tokens=None, extra=False):
+        skip = pre(m) if pre else None
+        if not skip:
+            for child in m.children:
+                if isinstance(child, Node):
+                    child.traverse_nodes(pre, post, tokens, extra)
+                elif tokens:
+                    tokens(child)
+            if extra and hasattr(m, "extra_children"):
+                for child in m.extra_children:
+                    child.traverse_nodes(pre, post, tokens, extra)
+        if post: post(m)
+
+    def traverse_tokens(m, visit):
+        if isinstance(m, Token):
+            visit(m)
+        else:
+            for child in m.children:
+                if isinstance(child, Node):
+                    child.traverse_tokens(visit)
+                else:
+                    visit(child)
+    
+    def traverse_parents(m, visit):
+        parent = m.parent
+        while parent:
+            visit(parent)
+            parent = parent.parent
+
+    def collect_comments(m, irrelevant=False, flags=None):
+        comments = []
+        def visit(token):
+            nonlocal comments
+            comments += token.children
+        
+        if isinstance(flags, KeepCommentFlags):
+            first_token = m.first_token() if flags.first else None
+            last_token = m.last_token() if flags.last else None
+            if first_token:
+                visit(first_token)
+            if last_token and last_token != first_token:
+                visit(last_token)
+        else:
+            m.traverse_tokens(visit)
+
+        if irrelevant:
+            comments = [c for c in comments if c.hint != CommentHint.auto]
+        return comments
+
+    def add_extra_child(m, child):
+        if not hasattr(m, "extra_children"):
+            m.extra_children = []
+        child.parent = m
+        child.extra_i = len(m.extra_children)
+        m.extra_children.append(child)
+    
+    def is_extra_child(m):
+        return hasattr(m, "extra_i")
+    
+    def move(m): # create a "destructive" copy - old object is no longer usable unless replaced
+        cpy = copy(m)
+        for child in cpy.children:
+            child.parent = cpy
+        m.erase()
+        return cpy
+
+    def copy(m):
+        cpy = copy(m)
+        cpy.children = [child.copy() for child in m.children]
+        for child in cpy.children:
+            child.parent = cpy
+        for key, val in cpy.__dict__.items():
+            idx = list_find(m.children, val)
+            if idx >= 0:
+                cpy.__dict__[key] = cpy.children[idx]
+        return cpy
+
+class TokenType(Enum):
+    number = string = ident = keyword = punct = ...
+    compiler = ... # special
+
+class Token(TokenNodeBase):
+    """A pico8 token, at 'source'.text['idx':'endidx'] (which is equal to its 'value'). Its 'type' is a TokenType.
+    For number/string tokens, the actual value is 'parsed_value'
+    Its children are the comments *before* it, if any."""
+
+    def __init__(m, type, value, source, idx, endidx, vline, lang, modified=False):
+        super().__init__()
+        m.type, m.value, m.source, m.idx, m.endidx, m.vline, m.lang, m.modified = type, value, source, idx, endidx, vline, lang, modified
+    
+    def check(m, expected):
+        if isinstance(expected, tuple):
+            assert m.value in expected
+        else:
+            assert m.value == expected
+
+    def modify(m, value, expected=None):
+        if expected != None:
+            m.check(expected)
+        m.value = value
+        m.modified = True
+        lazy_property.clear(m, "parsed_value")
+    
+    def erase(m, expected=None):
+        if expected != None:
+            m.check(expected)
+        m.type, m.value, m.modified = None, None, True
+
+    def add_comments(m, comments, first=False):
+        if m.children == ():
+            m.children = []
+        if first:
+            m.children[0:0] = comments
+        else:
+            m.children += comments
+    
+    def remove_comments(m):
+        m.children = ()
+
+    @lazy_property
+    def parsed_value(m):
+        if m.type == TokenType.number:
+            if m.lang == Language.picotron:
+                return parse_luanum(m.value)
+            else:
+                return parse_fixnum(m.value)
+        elif m.type == TokenType.string:
+            return parse_string_literal(m.value, m.lang)
+        else:
+            return None
+
+    @classmethod
+    def dummy(cls, source):
+        idx = len(source.text) if source else 0
+        vline = sys.maxsize if source else 0
+        return cls(None, None, source, idx, idx, vline, None)
+
+    @classmethod
+    def synthetic(cls, type, value, other, append=False, prepend=False):
+        idx = other.endidx if append else other.idx
+        endidx = other.idx if prepend else other.endidx
+        return cls(type, value, other.source, idx, endidx, other.vline, other.lang, modified=True)
+
+Token.none = Token.dummy(None)
+
+class ConstToken(Token):
+    def __init__(m, type, parsed_value, other):
+        super().__init__(type, None, other.source, other.idx, other.endidx, other.vline, other.lang, modified=True)
+        m.parsed_value = parsed_value
+        lazy_property.clear(m, "value")
+
+    @lazy_property
+    def value(m): # used during going over chars for rename (tsk...) and for output when not minify-tokens
+                  # (but not used for output under minify-tokens)
+        if isinstance(m.parsed_value, (int, float)):
+            allow_unary = can_replace_with_unary(m.parent) if m.parent else True
+            format_num = format_fixnum if m.lang == Language.pico8 else format_luanum
+            return format_num(m.parsed_value, sign=None if allow_unary else "")
+        else:
+            return format_string_literal(m.parsed_value, long=False)
+
+    @post_property_change
+    def parent(m, old, new):
+        lazy_property.clear(m, "value")
+
+class CommentHint(Enum):
+    none = auto = preserve = lint = keep = ...
+
+k_keep_prefix = "keep:"
+
+class Comment(TokenNodeBase):
+    """A pico8 comment, optionally holding some kind of hint"""
+
+    def __init__(m, isblock, hint, hintdata=None, hintprefix="", source=None, idx=None, endidx=None, vline=None, modified=False):
+        super().__init__()
+        m.isblock, m.hint, m.hintdata, m.hintprefix = isblock, hint, hintdata, hintprefix
+        m.source, m.idx, m.endidx, m.vline, m.modified = source, idx, endidx, vline, modified
+
+    def modify(m, value):
+        m.value = value
+        m.modified = True
+
+    @property
+    def value(m):
+        return m.source_text
+
+def is_ident_char(ch, lang=Language.pico8):
+    return ('0' <= ch <= '9' or 'a' <= ch <= 'z' or 'A' <= ch <= 'Z' or ch == '_' or
+            (lang == Language.pico8 and (ch in ('\x1e', '\x1f') or ch >= '\x80')))
+
+def is_identifier(str, lang=Language.pico8):
+    return str and all(is_ident_char(ch, lang) for ch in str) and not str[:1].isdigit() and str not in keywords
+    
+k_identifier_split_re = r"([0-9A-Za-z_\x1e\x1f\x80-\xff]+)"
+
+k_hint_split_re = re.compile(r"[\s,]+")
+
+class NextTokenMods:
+    def __init__(m):
+        m.var_kind = m.keys_kind = m.is_const = m.func_kind = m.merge_prev = m.force_safe = m.sublang = m.rename = m.placeholder = None
+        m.comments = None
+        
+    def add_comment(m, cmt):
+        if m.comments is None:
+            m.comments = []
+        m.comments.append(cmt)
+
+def tokenize(source, ctxt=None, all_comments=False, lang=None, inner=False):
+    text = source.text
+    idx = 0
+    vline = 0
+    tokens = []
+    errors = []
+    real_tokens = None
+    next_mods = None
+    if lang is None:
+        lang = ctxt.lang if ctxt else Language.pico8
+    
+    is_pico8 = lang == Language.pico8
+    is_picotron = lang == Language.picotron
+
+    def peek(off=0):
+        i = idx + off
+        return text[i] if 0 <= i < len(text) else ''
+
+    def take():
+        nonlocal idx
+        ch = peek()
+        idx += 1
+        return ch
+
+    def accept(ch,):
+        nonlocal idx
+        if peek() == ch:
+            idx += 1
+            return True
+        return False
+
+    def accept_one_of(*chs):
+        nonlocal idx
+        if peek() in chs:
+            idx += 1
+            return True
+        return False
+
+    def get_next_mods():
+        nonlocal next_mods
+        if next_mods is None:
+            next_mods = NextTokenMods()
+        return next_mods
+
+    def add_token(type, start, end_off=0, value=None):
+        end = idx + end_off
+        if value is None and type is not None: # (dummy tokens have type==value==None)
+            value = text[start:end]
+        token = Token(type, value, source, start, end, vline, lang)
+        tokens.append(token)
+        
+        nonlocal next_mods
+        if next_mods != None:
+            add_next_mods(token, next_mods)
+            next_mods = None
+        return token
+
+    def add_error(msg, off=-1):
+        add_token(None, idx + off) # error token
+        errors.append(Error(msg, tokens[-1]))
+
+    def add_dyn_include(include_data):
+        if ctxt and ctxt.include_getter and not ctxt.ignore_transforms:
+            include_name, include_args = split_hint_args(include_data, ctxt)
+            include_func = ctxt.include_getter(include_name)
+            if include_func:
+                included_str = include_func(args=include_args, ctxt=ctxt)
+                if included_str != None:
+                    included_tokens, included_errors = tokenize(Source(include_name, included_str), ctxt, all_comments, inner=True)
+                    tokens.extend(included_tokens)
+                    errors.extend(included_errors)
+                    return
+            eprint("warning - ignoring unrecognized dynamic include '%s'" % include_name)
+
+    def add_sublang(token, sublang_data):
+        if ctxt and ctxt.sublang_getter and token.type == TokenType.string:
+            sublang_name, sublang_args = split_hint_args(sublang_data, ctxt)
+
+            sublang_cls = ctxt.sublang_getter(sublang_name)
+            if sublang_cls:
+                add_lang_error = lambda msg: add_error(f"{sublang_name}: {msg}")
+                token.sublang_name = sublang_name
+                token.sublang = sublang_cls(token.parsed_value, args=sublang_args,
+                                            ctxt=ctxt, on_error=add_lang_error)
+            else:
+                eprint("warning - ignoring unrecognized language '%s'" % sublang_name)
+
+    def switch_compiler(compiler_data):
+        nonlocal real_tokens, tokens
+        if real_tokens != None:
+            real_tokens, tokens = None, real_tokens
+
+        if compiler_data != None:
+            if ctxt and ctxt.compiler_getter and not ctxt.ignore_transforms:
+                compiler_name, compiler_args = split_hint_args(compiler_data, ctxt)
+                if compiler_name != "none":
+                    compiler_cls = ctxt.compiler_getter(compiler_name)
+                    if compiler_cls:
+                        curr_compiler = compiler_cls(args=compiler_args, ctxt=ctxt, src=source)
+                        for dyn_include in curr_compiler.get_dynamic_includes():
+                            add_dyn_include(dyn_include)
+                        
+                        compiler_token = add_token(TokenType.compiler, idx, value="`compiler`")
+                        compiler_token.compiler_name = compiler_name
+                        compiler_token.compiler = curr_compiler
+                        compiler_token.compiler_tokens = []
+                        real_tokens, tokens = tokens, compiler_token.compiler_tokens
+
+                    else:
+                        eprint("warning - ignoring unrecognized compiler '%s'" % compiler_name)
+
+    def add_next_mods(token, mods):
+        if mods.comments != None:
+            token.children = mods.comments        
+        if mods.var_kind != None:
+            token.var_kind = mods.var_kind
+        if mods.keys_kind != None:
+            token.keys_kind = mods.keys_kind
+        if mods.is_const != None:
+            token.is_const = mods.is_const
+        if mods.func_kind != None:
+            token.func_kind = mods.func_kind
+        if mods.merge_prev != None:
+            token.merge_prev = mods.merge_prev
+        if mods.force_safe != None:
+            token.force_safe = mods.force_safe
+        if mods.rename != None:
+            token.rename = mods.rename
+        if mods.placeholder != None:
+            token.placeholder_name, token.placeholder_args = split_hint_args(mods.placeholder[0], ctxt)
+            token.placeholder_expr = mods.placeholder[1]
+            if not (token.type == TokenType.string if token.placeholder_expr else token.value == 'do'):
+                eprint(f"invalid usage of $placeholder: {token.placeholder_name}")
+        if mods.sublang != None:
+            add_sublang(token, mods.sublang)
+
+    def process_comment(orig_idx, comment, isblock):
+        hint, hintdata, hintprefix = CommentHint.none, None, ""
+
+        if ctxt and ctxt.hint_comments:
+            proper = False
+            if comment.startswith("$"):
+                comment = comment[1:]
+                hintprefix = "$"
+                proper = True
+
+            if comment.startswith("lint:"):
+                lints = k_hint_split_re.split(str_after_first(comment, ":"))
+                lints = [lint for lint in lints if lint]
+                hint, hintdata = CommentHint.lint, lints
+
+                for lint in lints:
+                    if lint.startswith("func::"):
+                        get_next_mods().func_kind = str_after_first(lint, "::")
+
+            elif comment.startswith("preserve:"):
+                preserves = k_hint_split_re.split(str_after_first(comment, ":"))
+                preserves = [preserve for preserve in preserves if preserve]
+                hint, hintdata = CommentHint.preserve, preserves
+
+            elif comment.startswith(k_keep_prefix):
+                hint = CommentHint.keep
+                
+            elif comment.startswith("dynamic-include:") and proper:
+                add_dyn_include(str_after_first(comment, ":"))
+                hint = CommentHint.auto
+            
+            elif (comment.startswith("def-alias:") and proper) or comment.startswith("deflanguage:"): # deflanguage is deprecated
+                alias_name, alias_value = list_unpack(str_after_first(comment, ":").split("=", 1), 2, "")
+                dest_name, dest_args = split_hint_args(alias_value, ctxt)
+                if ctxt and ctxt.add_custom_alias:
+                    ctxt.add_custom_alias(alias_name.strip(), dest_name, dest_args)
+                hint = CommentHint.auto
+                
+            elif comment.startswith("switch-compiler:") and proper:
+                switch_compiler(str_after_first(comment, ":"))
+                hint = CommentHint.auto
+
+            elif isblock:
+                hint = CommentHint.auto
+                if comment in ("global", "nameof"): # nameof is deprecated
+                    get_next_mods().var_kind = VarKind.global_
+                elif comment in ("member", "memberof"): # memberof is deprecated
+                    get_next_mods().var_kind = VarKind.member
+                elif comment in ("preserve", "string"): # string is deprecated
+                    get_next_mods().var_kind = False
+                elif comment == "global-keys":
+                    get_next_mods().keys_kind = VarKind.global_
+                elif comment == "member-keys":
+                    get_next_mods().keys_kind = VarKind.member
+                elif comment in ("preserve-keys", "string-keys"): # string-keys is deprecated
+                    get_next_mods().keys_kind = False
+                elif comment == "no-merge":
+                    get_next_mods().merge_prev = False
+                elif comment == "const":
+                    get_next_mods().is_const = True
+                elif comment == "non-const":
+                    get_next_mods().is_const = False
+                elif comment == "force-safe":
+                    get_next_mods().force_safe = True
+                elif comment.startswith("language::"):
+                    get_next_mods().sublang = str_after_first(comment, "::")
+                elif comment.startswith("rename::") and not any(ch.isspace() for ch in comment):
+                    get_next_mods().rename = str_after_first(comment, "::")
+                elif comment.startswith("placeholder-expr::") and proper:
+                    get_next_mods().placeholder = (str_after_first(comment, "::"), True)
+                elif comment.startswith("placeholder-stmt::") and proper:
+                    get_next_mods().placeholder = (str_after_first(comment, "::"), False)
+                else:
+                    hint = CommentHint.none
+        
+            if proper and hint == CommentHint.none:
+                eprint(f"unrecognized $-comment '{comment}'")
+            # at some point, warn about improper comments and so on?
+
+        if all_comments or (hint != CommentHint.none and hint != CommentHint.auto):
+            get_next_mods().add_comment(Comment(isblock, hint, hintdata, hintprefix, source, orig_idx, idx, vline))
+        
+    def tokenize_line_comment():
+        nonlocal vline
+        orig_idx = idx
+        while take() not in ('\n', ''): pass
+
+        process_comment(orig_idx - 2, text[orig_idx:idx], isblock=False)
+        vline += 1
+
+    def tokenize_long_brackets(off):
+        nonlocal idx
+        idx += off
+        orig_idx = idx
+
+        if accept('['):
+            pad_idx = idx
+            while accept('='): pass
+            pad = text[pad_idx:idx]
+
+            if accept('['):
+                start_i = idx
+                end_i = text.find(f"]{pad}]", idx)
+                if end_i >= 0:
+                    idx = end_i + len(pad) + 2
+                    return True, orig_idx, start_i, end_i
+                
+                add_error("Unterminated long comment (no longer accepted by pico8)", 0)
+        
+        return False, orig_idx, None, None
+
+    def tokenize_long_comment():
+        nonlocal idx
+        ok, orig_idx, start, end = tokenize_long_brackets(0)
+        if ok:
+            process_comment(orig_idx - 2, text[start:end], isblock=True)
+        else:
+            idx = orig_idx
+        return ok
+
+    def tokenize_number(off):
+        nonlocal idx
+        idx += off
+        orig_idx = idx
+
+        if is_picotron:
+            is_hex = peek() == '0' and peek(1) in ('x', 'X')
+
+            while True:
+                ch = peek()
+                if (is_ident_char(ch, lang) or ch == '.' or
+                        (ch in ('-', '+') and peek(-1) in (('p', 'P') if is_hex else ('e', 'E')))):
+                    idx += 1
+                else:
+                    break
+
+        else:
+            ch = peek()
+            if ch == '0' and peek(1) in ('b', 'B'):
+                idx += 2
+                digits = "01"
+            elif ch == '0' and peek(1) in ('x', 'X'):
+                idx += 2
+                digits = "0123456789aAbBcCdDeEfF"
+            else:
+                digits = "0123456789"
+
+            while True:
+                ch = peek()
+                if ch and ch in digits:
+                    idx += 1
+                elif ch == '.':
+                    idx += 1
+                else:
+                    break
+
+        add_token(TokenType.number, orig_idx)
+
+    def tokenize_ident(off):
+        nonlocal idx
+        idx += off
+        orig_idx = idx
+        
+        while is_ident_char(peek(), lang):
+            idx += 1
+            
+        if text[orig_idx:idx] in keywords:
+            add_token(TokenType.keyword, orig_idx)
+        else:
+            add_token(TokenType.ident, orig_idx)
+
+    def tokenize_string(off):
+        nonlocal idx
+        orig_idx = idx + off
+        idx = orig_idx + 1
+        quote = text[orig_idx]
+
+        while True:
+            ch = take()
+            if ch in ('\n', ''):
+                add_error("Unterminated string", orig_idx - idx)
+                break
+            elif ch == '\\':
+                if accept('z'): # skip line breaks
+                    while peek() and peek() in k_wspace:
+                        take()
+                else:
+                    take() # at least
+            elif ch == quote:
+                break
+
+        add_token(TokenType.string, orig_idx)
+
+    def tokenize_long_string(off):
+        ok, orig_idx, _, _ = tokenize_long_brackets(off)
+        if ok:
+            add_token(TokenType.string, orig_idx)
+        else:
+            add_error("Invalid long brackets")
+    
+    if ctxt and ctxt.default_compiler and not inner:
+        switch_compiler(ctxt.default_compiler)
+
+    while idx < len(text):
+        ch = take()
+
+        if ch in k_wspace: # whitespace
+            if ch == "\n":
+                vline += 1
+
+        elif '0' <= ch <= '9' or (ch == '.' and '0' <= peek() <= '9'): # number
+            tokenize_number(-1)
+
+        elif is_ident_char(ch, lang): # identifier
+            tokenize_ident(-1)
+
+        elif ch in ('"', "'"): # string
+            tokenize_string(-1)
+
+        elif ch == '[' and accept_one_of('=', '['): # long string
+            tokenize_long_string(-2)
+
+        elif ch == '-' and accept('-'): # comment
+            if not tokenize_long_comment():
+                tokenize_line_comment()
+
+        elif ch == '/' and is_pico8 and accept('/'): # c-style comment
+            tokenize_line_comment()
+
+        elif ch in "+-*/\\%&|^<>=~#()[]{};,?@$.:": # punctuation
+            orig_idx = idx - 1
+            if ch in ".:/^<>" and accept(ch):
+                if ch in (".>" if is_pico8 else ".") and accept(ch):
+                    if ch == ">": accept('=')
+                elif ch in "<>" and is_pico8 and accept(">" if ch == "<" else "<"):
+                    accept('=')
+                elif ch in "./^<>":
+                    accept('=')
+            elif ch in "+-*/\\%&|^<>=~":
+                accept('=')
+            add_token(TokenType.punct, orig_idx)
+
+        elif ch == '!' and accept('='): # alt. punctuation
+            add_token(TokenType.punct, idx - 2)
+
+        else:
+            add_error("invalid character")
+    
+    if (next_mods or all_comments) and not inner:
+        add_token(None, idx) # end token, for ending whitespace/comments/etc (TBD: lost if inner...)
+
+    if real_tokens != None:
+        switch_compiler(None)
+    return tokens, errors
+    
+
+def is_count_stop(token):
+    return any(comment.hint == CommentHint.lint and "count::stop" in comment.hintdata for comment in token.children or ())
+
+def has_count_stop(tokens):
+    return any(is_count_stop(token) for token in tokens)
+
+def count_tokens(tokens):
+    count = 0
+    for i, token in enumerate(tokens):
+        if is_count_stop(token):
+            return count
+
+        if token.value in (",", ".", ":", ";", "::", ")", "]", "}", "end", "local", None):
+            continue
+
+        if (token.value in ("-", "~") and i+1 < len(tokens) and tokens[i+1].type == TokenType.number and
+                token.endidx == tokens[i+1].idx and
+                i-1 >= 0 and tokens[i-1].type not in (TokenType.number, TokenType.string, TokenType.ident) and
+                tokens[i-1].value not in (")", "]", "}", ";", "end")):
+            continue
+
+        count += 1
+    return count
+
+def parse_fixnum(origstr):
+    """parse a fixnum from a pico8 string"""
+    str = origstr.lower()
+    
+    neg = bnot = False
+    if str.startswith("-"):
+        str = str[1:]
+        neg = True
+    elif str.startswith("~"):
+        str = str[1:]
+        bnot = True
+
+    digits = "0123456789"
+    if str.startswith("0x"):
+        digits += "abcdef"
+        str = str[2:]
+    elif str.startswith("0b"):
+        digits = "01"
+        str = str[2:]
+    base = len(digits)
+
+    value = 0
+    while str and str[0] in digits:
+        value = (value * base) + digits.index(str[0])
+        str = str[1:]
+
+    if str and str[0] == '.':
+        str = str[1:]
+        dotvalue = 0
+        dotdigits = 0
+        while str and str[0] in digits:
+            dotvalue = (dotvalue * base) + digits.index(str[0])
+            dotdigits += 1
+            str = str[1:]
+        
+        value += dotvalue / (base ** dotdigits)
+    
+    if str:
+        throw(f"Invalid pico8 number: {origstr}")
+
+    fixnum = num_to_fixnum(value)
+    if neg:
+        fixnum = -fixnum & k_fixnum_mask
+    elif bnot:
+        fixnum = ~fixnum & k_fixnum_mask
+
+    return fixnum
+
+def parse_luanum(origstr):
+    str = origstr.lower()
+
+    neg = False
+    if str.startswith("-"):
+        str = str[1:]
+        neg = True
+
+    try:
+        if str.startswith("0x"):
+            if "." in str or "p" in str:
+                try:
+                    value = float.fromhex(str)
+                except OverflowError:
+                    value = float('inf')
+            else:
+                value = num_to_luaint(int(str, base=16))
+        
+        elif str.startswith("0b"):
+            # TODO: recheck this if ever fixed to support exponents?
+            # TODO: recheck this if current 0b2 through 0bf bug stays around, and support it if so?
+            dotpos = str.find(".")
+            if dotpos >= 0:
+                str = str_replace_at(str, dotpos, 1, "")
+            value = int(str, base=2)
+            if dotpos >= 0:
+                try:
+                    value = math.ldexp(value, dotpos - len(str))
+                except OverflowError:
+                    value = float('inf')
+            else:
+                value = num_to_luaint(value)
+            
+        else:
+            if "." in str or "e" in str:
+                value = float(str) # no OverflowError here
+            else:
+                value = int(str)
+                if is_luaint_in_range(value): # intentionally disregarding the possibility of 'neg'
+                    value = num_to_luaint(value)
+                else:
+                    value = float(value)
+    except ValueError:
+        throw(f"Invalid lua number: {origstr}")
+    
+    if neg:
+        value = -value
+    return value
+
+k_char_escapes = {
+    '*': '\1', '#': '\2', '-': '\3', '|': '\4', '+': '\5', '^': '\6',
+    'a': '\a', 'b': '\b', 't': '\t', 'n': '\n', 'v': '\v', 'f': '\f', 'r': '\r',
+    '\\': '\\', '"': '"', "'": "'", '\n': '\n',
+}
+
+def lang_chr(value, lang):
+    if lang == Language.pico8 or value < 0x80:
+        return chr(value)
+    else:
+        return chr(0xdc00 + value) # surrogate escape
+
+def ext_unicode_to_lang_str(value, lang):
+    if value < 0x80:
+        return lang_chr(value, lang)
+    
+    suffix = ""
+    count = 0
+    while value >= (0x40 >> count):
+        suffix = lang_chr(0x80 + (value & 0x3f), lang) + suffix
+        value >>= 6
+        count += 1
+    return lang_chr(((-0x80 >> count) & 0xff) + value, lang) + suffix
+
+def parse_char_escape(str, pos, lang):
+    "parse an escape sequence (pos is the position of the '\\', which isn't checked)"
+
+    esc = str_get(str, pos + 1)
+    esc_ch = k_char_escapes.get(esc)
+    if esc_ch:
+        return esc_ch, pos + 2
+
+    elif esc == 'z':
+        end = pos + 2
+        while str_get(str, end, 'x') in k_wspace:
+            end += 1
+        return "", end
+
+    elif esc == 'x':
+        end = pos + 4
+        hex_esc = str[pos + 2 : end]
+        value = maybe_int(hex_esc, base=16)
+        if value is None:
+            throw(f"Invalid hex escape: '{hex_esc}' in: '{str}'")
+        return lang_chr(value, lang), end
+
+    elif '0' <= esc <= '9':
+        end = pos + 2
+        while end < pos + 4 and '0' <= str_get(str, end, '') <= '9':
+            end += 1
+        dec_esc = str[pos + 1 : end]
+        value = maybe_int(dec_esc)
+        if value is None or value >= 256:
+            throw(f"Invalid dec escape: '{dec_esc}' in: '{str}'")
+        return lang_chr(value, lang), end
+
+    elif lang == Language.picotron and esc == 'u':
+        check(str_get(str, pos + 2) == "{", f"Invalid unicode escape in: '{str}'")
+        end = str.find("}", pos) + 1
+        check(end > 0, f"Unterminated unicode escape in: '{str}'")
+        uni_esc = str[pos + 3 : end - 1]
+        value = maybe_int(uni_esc, base=16)
+        if value is None or value >= 0x80000000:
+            throw(f"Invalid uni escape: '{uni_esc}' in: '{str}'")
+        return ext_unicode_to_lang_str(value, lang), end
+
+    else:
+        throw(f"Invalid escape: '{esc}' in: '{str}'")    
+
+def parse_string_literal(str, lang=Language.pico8):
+    """parse a pico8 string from a pico8 string literal"""
+    if str.startswith("["):
+        start = str.index("[", 1) + 1
+        lit = str[start:-start]
+        lit = re.sub(r"\n\r?|\r\n?", "\n", lit)
+        if lit.startswith('\n'):
+            lit = lit[1:]
+        return lit
+
+    else:
+        litparts = []
+        str = str[1:-1]
+        start = 0
+        while start < len(str):
+            end = str.find('\\', start)
+            if end < 0:
+                litparts.append(str[start:])
+                break
+
+            if end > start:
+                litparts.append(str[start:end])
+
+            esc, start = parse_char_escape(str, end, lang)
+            litparts.append(esc)
+                
+        return "".join(litparts)
+
+from pico_parse import Node, VarKind, can_replace_with_unary
+from pico_output import format_fixnum, format_luanum, format_string_literal
+from pico_process import Error, Source
-- 
2.43.0


From d074dfeb1b4de081e0940b92f41d81abfab97344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:26 +0000
Subject: [PATCH 22/93] fix: constant shifts by the smallest number recursed
 forever

---
 pico_constfold.py | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/pico_constfold.py b/pico_constfold.py
index 7699120..529e376 100644
--- a/pico_constfold.py
+++ b/pico_constfold.py
@@ -286,36 +286,49 @@ def lua_bin_xor(lang, a, b):
     elif a.is_integer_cvt and b.is_integer_cvt:
         return LuaInteger(a.uint_value ^ b.uint_value)
 
+def _is_min_shift(b): # (negating this value gives itself)
+    return b.value == 0x80000000 if b.is_fixnum else b.value == -0x8000000000000000
+
 def lua_shl(lang, a, b):
     if a.is_fixnum and b.is_fixnum:
-        if fixnum_is_negative(b.value):
+        if _is_min_shift(b): # avoid relying on overflow behavior
+            return
+        elif fixnum_is_negative(b.value):
             if not fixnum_is_negative(a.value): # avoid relying on questionable shift-left-neg-by-neg behaviour
                 return lua_lshr(lang, a, lua_neg(lang, b))
         elif fixnum_is_whole(b.value): # avoid relying on shift-by-fract behaviour
             return LuaFixnum(a.value << min(fixnum_to_whole(b.value), 32))
     
     elif a.is_integer_cvt and b.is_integer_cvt:
-        if b.value < 0:
+        if _is_min_shift(b): # avoid relying on overflow behavior
+            return
+        elif b.value < 0:
             return lua_shr(lang, a, lua_neg(lang, b))
         else:
             return LuaInteger(a.uint_value << min(b.uint_value, 64))
 
 def lua_shr(lang, a, b):
     if a.is_fixnum and b.is_fixnum:
-        if fixnum_is_negative(b.value):
+        if _is_min_shift(b): # avoid relying on overflow behavior
+            return
+        elif fixnum_is_negative(b.value):
             return lua_shl(lang, a, lua_neg(lang, b))
         elif fixnum_is_whole(b.value):
             return LuaFixnum(fixnum_to_signed(a.value) >> min(fixnum_to_whole(b.value), 32))
     
     elif a.is_integer_cvt and b.is_integer_cvt:
-        if b.value < 0:
+        if _is_min_shift(b): # avoid relying on overflow behavior
+            return
+        elif b.value < 0:
             return lua_shl(lang, a, lua_neg(lang, b))
         elif a.value >= 0: # avoid relying on inconsistent shift-right-neg behaviour (for now?)
             return LuaInteger(a.uint_value >> min(b.uint_value, 64))
 
 def lua_lshr(lang, a, b):
     if a.is_fixnum and b.is_fixnum:
-        if fixnum_is_negative(b.value):
+        if _is_min_shift(b): # avoid relying on overflow behavior
+            return
+        elif fixnum_is_negative(b.value):
             return lua_shl(lang, a, lua_neg(lang, b))
         elif fixnum_is_whole(b.value):
             return LuaFixnum(a.value >> min(fixnum_to_whole(b.value), 32))
@@ -323,7 +336,9 @@ def lua_lshr(lang, a, b):
 
 def lua_rotl(lang, a, b):
     if a.is_fixnum and b.is_fixnum:
-        if fixnum_is_negative(b.value):
+        if _is_min_shift(b): # avoid relying on overflow behavior
+            return
+        elif fixnum_is_negative(b.value):
             return lua_rotr(lang, a, lua_neg(lang, b))
         elif fixnum_is_whole(b.value):
             return LuaFixnum(rotate_left(a.value, fixnum_to_whole(b.value), 32))
@@ -331,7 +346,9 @@ def lua_rotl(lang, a, b):
 
 def lua_rotr(lang, a, b):
     if a.is_fixnum and b.is_fixnum:
-        if fixnum_is_negative(b.value):
+        if _is_min_shift(b): # avoid relying on overflow behavior
+            return
+        elif fixnum_is_negative(b.value):
             return lua_rotl(lang, a, lua_neg(lang, b))
         elif fixnum_is_whole(b.value):
             return LuaFixnum(rotate_right(a.value, fixnum_to_whole(b.value), 32))
-- 
2.43.0


From 067f44365c677a85ea66c64bef3c6dbe8c16d10b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:41 +0000
Subject: [PATCH 23/93] fix: don't break the line before a new print shorthand
 that has no values

---
 pico_minify.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pico_minify.py b/pico_minify.py
index aa5c35a..0cf080a 100644
--- a/pico_minify.py
+++ b/pico_minify.py
@@ -229,12 +229,14 @@ def minify_change_print_shorthand(node, new_short):
     node.func.var.implicit = True
     node.add_extra_child(node.func)
 
+    # (insert before removing the parens, as there may be nothing else in the line)
+    node.insert_token(1, TokenType.punct, "?", near_next=True)
+
     end_paren = node.children[-1]
     if isinstance(end_paren, Token) and end_paren.value == ")": # else, this is a paren-less call
-        node.remove_token(1, "(")
+        node.remove_token(2, "(")
         node.remove_token(-1, ")")
     
-    node.insert_token(1, TokenType.punct, "?", near_next=True)
     node.remove_child(0)
     node.func = node.children[0]
 
-- 
2.43.0


From 8227623d6b23eece9ec638e672cc23920a5171f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:27 +0000
Subject: [PATCH 24/93] fix: unminifying after minifying used the old text's
 tokens, producing garbage

---
 pico_process.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pico_process.py b/pico_process.py
index 21e24b0..fdf960d 100644
--- a/pico_process.py
+++ b/pico_process.py
@@ -380,7 +380,15 @@ def process_code(ctxt, source, input_count=False, count=False, lint=False, minif
             
             if need_unminify:
                 for subsrc in source:
-                    subsrc.text = unminify_code(get_sub_root(root, subsrc), unminify)
+                    subroot = get_sub_root(root, subsrc)
+                    if need_minify: # the text was replaced, so the old tokens don't match it anymore
+                        subtokens, suberrors = tokenize(subsrc, None, True, lang=ctxt.lang)
+                        if not suberrors:
+                            subroot, suberrors = parse(subsrc, subtokens, lang=ctxt.lang)
+                        if suberrors:
+                            return False, suberrors
+
+                    subsrc.text = unminify_code(subroot, unminify)
 
             if count:
                 assert not source.is_super
-- 
2.43.0


From acd739695b9bd7197e38111019047240333c21b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:47 +0000
Subject: [PATCH 25/93] fix: constants replacing an indexed or called
 expression (or a whole statement) produced invalid code

---
 pico_constfold.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/pico_constfold.py b/pico_constfold.py
index 529e376..2852401 100644
--- a/pico_constfold.py
+++ b/pico_constfold.py
@@ -469,6 +469,9 @@ def get_const(node):
         return getattr(node, "worse_const", None)
 
 def set_const(node, value, ctxt, focus, force):
+    if node.parent.type == NodeType.block:
+        return # constants aren't allowed as statements
+
     if value.is_number:
         token = ConstToken(TokenType.number, value.value, node)
     elif value.type == LuaType.string:
@@ -487,7 +490,17 @@ def set_const(node, value, ctxt, focus, force):
             node.worse_const = value
             return
 
-    node.replace_with(create_const_node(token))
+    const_node = create_const_node(token)
+
+    parent = node.parent
+    if ((parent.type in (NodeType.index, NodeType.member) and node is parent.child) or
+            (parent.type == NodeType.call and node is parent.func)):
+        # constants can only be indexed or called inside parens
+        open_token = Token.synthetic(TokenType.punct, "(", node, prepend=True)
+        close_token = Token.synthetic(TokenType.punct, ")", node, append=True)
+        const_node = Node(NodeType.group, [open_token, const_node, close_token], child=const_node)
+
+    node.replace_with(const_node)
 
 def fixup_syntax_between(parent, prev, next):
     nextt = next.first_token()
-- 
2.43.0


From ead5d7e40a6d8cffddbdf07e196b9377192a97cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:47 +0000
Subject: [PATCH 26/93] fix: folding away an if or a local could turn the next
 statement's parens into a call

---
 pico_constfold.py | 48 +++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 48 insertions(+)

diff --git a/pico_constfold.py b/pico_constfold.py
index 2852401..580b018 100644
--- a/pico_constfold.py
+++ b/pico_constfold.py
@@ -525,6 +525,52 @@ def fixup_syntax_after_remove(stmt):
             if stmt_i < stmt_n - 1:
                 fixup_syntax_between(parent, stmt, parent.stmts[stmt_i+1])
 
+def fixup_syntax_between_all(root):
+    # removing code may leave an expression right before a statement starting with '(' - a semicolon is needed to avoid calling it
+    prev = None
+    fixups = []
+
+    def get_stmt(node):
+        while node.parent and node.parent.type != NodeType.block:
+            node = node.parent
+        return node
+
+    def may_be_called(prev, stmt):
+        if prev.type == TokenType.string or prev.value == "}": # only if used as the argument of a call
+            if prev.parent.parent.type != NodeType.call:
+                return False
+        elif not (prev.type == TokenType.ident or prev.value in (")", "]")):
+            return False
+        
+        node = get_stmt(prev)
+        if (node.type == NodeType.local and not node.sources) or node.type == NodeType.goto:
+            return False
+
+        parents = []
+        stmt.traverse_parents(parents.append)
+        while node and node not in parents:
+            if getattr(node, "short", False): # requires a line break anyway
+                return False
+            node = node.parent
+        return node and node.type == NodeType.block
+
+    def visit_token(token):
+        nonlocal prev
+        if token.value is None:
+            return
+
+        if token.value == "(" and prev:
+            stmt = get_stmt(token)
+            if stmt.parent and stmt.first_token() is token and may_be_called(prev, stmt):
+                fixups.append(stmt)
+
+        prev = token
+    
+    root.traverse_tokens(visit_token)
+
+    for stmt in fixups:
+        stmt.parent.insert_token(stmt.parent.children.index(stmt), TokenType.punct, ";", near_next=True)
+
 def erase_assign_targets(node, indices):
     if len(node.targets) < len(node.sources) and len(indices) == len(node.targets):
         indices.pop() # can't deal with this easily otherwise
@@ -771,6 +817,8 @@ def fold_consts(ctxt, minify_opts, root, errors):
 
     root.traverse_nodes(pre=skip_special, post=update_node_constval)
 
+    fixup_syntax_between_all(root)
+
 def parse_constant(value, lang, as_str=False):
     if as_str:
         return LuaString(to_langstr(value, lang))
-- 
2.43.0


From 0ecfb7511ac067ce3fd1bec1c8de73618447bebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:56 +0000
Subject: [PATCH 27/93] fix: folding away the contents of a shorthand's body
 could leave it empty or beginning with a do block

---
 pico_constfold.py | 13 ++++++++++++-
 pico_minify.py    | 23 ++++++++++++++++-------
 pico_parse.py     |  5 +++++
 3 files changed, 33 insertions(+), 8 deletions(-)

diff --git a/pico_constfold.py b/pico_constfold.py
index 580b018..ca1e72d 100644
--- a/pico_constfold.py
+++ b/pico_constfold.py
@@ -1,7 +1,7 @@
 from utils import *
 from pico_defs import *
 from pico_tokenize import Token, TokenType, ConstToken, k_skip_children, tokenize, KeepCommentFlags
-from pico_parse import Node, NodeType, VarKind, is_root_global_or_builtin_local, is_vararg_expr
+from pico_parse import Node, NodeType, VarKind, is_root_global_or_builtin_local, is_vararg_expr, is_short_block_stmt, get_short_body_value
 from pico_output import format_fixnum, format_luanum
 
 class LuaType(Enum):
@@ -571,6 +571,16 @@ def fixup_syntax_between_all(root):
     for stmt in fixups:
         stmt.parent.insert_token(stmt.parent.children.index(stmt), TokenType.punct, ";", near_next=True)
 
+def fixup_short_bodies(root):
+    # removing code may leave the body of a shorthand empty or beginning with a do block, neither of which is allowed
+    def visit(node):
+        if is_short_block_stmt(node):
+            body = node.then if node.type == NodeType.if_ else node.body
+            if get_short_body_value(body) in (None, "do"):
+                body.insert_token(0, TokenType.punct, ";")
+
+    root.traverse_nodes(pre=visit)
+
 def erase_assign_targets(node, indices):
     if len(node.targets) < len(node.sources) and len(indices) == len(node.targets):
         indices.pop() # can't deal with this easily otherwise
@@ -818,6 +828,7 @@ def fold_consts(ctxt, minify_opts, root, errors):
     root.traverse_nodes(pre=skip_special, post=update_node_constval)
 
     fixup_syntax_between_all(root)
+    fixup_short_bodies(root)
 
 def parse_constant(value, lang, as_str=False):
     if as_str:
diff --git a/pico_minify.py b/pico_minify.py
index 0cf080a..10d5738 100644
--- a/pico_minify.py
+++ b/pico_minify.py
@@ -3,7 +3,7 @@ from pico_defs import fixnum_is_negative, float_is_negative, Language
 from pico_tokenize import Token, TokenType, StopTraverse, k_skip_children
 from pico_parse import Node, NodeType, VarKind
 from pico_parse import k_unary_ops_prec, get_precedence, is_right_assoc, can_replace_with_unary
-from pico_parse import is_vararg_expr, is_short_block_stmt, is_root_global_or_builtin_local
+from pico_parse import is_vararg_expr, is_short_block_stmt, get_short_body_value, is_root_global_or_builtin_local
 from pico_output import format_luanum, format_fixnum, format_string_literal
 
 class Focus(Bitmask):
@@ -118,12 +118,12 @@ def analyze_code_for_minify(root, focus, ctxt, safe_builtins):
                     if not allow_child_shorthands(node, body):
                         allow_shorthand = False
                     
-                    if not body.children:
+                    if get_short_body_value(body) is None:
                         has_empties = True
                     
                     if i == 0:
                         # a shorthand cannot begin with a do block. (would be a longhand)
-                        starts_with_do = bool(body.stmts) and body.stmts[0].type == NodeType.do # (';'s before it may be removed)
+                        starts_with_do = get_short_body_value(body, skip=(";",)) == "do" # (';'s before it may be removed)
                 
                 # empty bodies require extra ';'s to shorten, which worsens compression
                 to_short = allow_shorthand and not (has_empties and not focus.chars) and not starts_with_do
@@ -190,6 +190,17 @@ def on_enable_shorthand(node):
             comment.vline = vline
     node.traverse_tokens(fix_vlines)
 
+def is_short_body_semicolon_needed(token):
+    # semicolons keep the body of a shorthand from being empty or from beginning with a do block
+    body = token.parent
+    while body.parent and body.parent.type == NodeType.block: # (blocks may be inside blocks after constant folding)
+        body = body.parent
+    if not (body.parent and is_short_block_stmt(body.parent)):
+        return False
+
+    values = (token.value for token in body.get_tokens() if token.value != None)
+    return next(values) == ";" and next(values, "do") == "do"
+
 def minify_change_block_shorthand(node, new_short):
     if new_short:
         node.short = True
@@ -209,7 +220,7 @@ def minify_change_block_shorthand(node, new_short):
 
         # fixup empty bodies
         for body in get_node_bodies(node):
-            if not any(child.type for child in body.children): # (children may have been erased)
+            if get_short_body_value(body) is None:
                 body.append_token(TokenType.punct, ";")
         
         on_enable_shorthand(node)
@@ -482,9 +493,7 @@ def minify_code(ctxt, root, minify_opts):
             # remove unneeded tokens
 
             if token.value == ";" and token.parent.type == NodeType.block and token.next_token().value != "(":
-                gparent = token.parent.parent
-                stmts = token.parent.stmts
-                if not (gparent and is_short_block_stmt(gparent) and (not stmts or stmts[0] is token.next_sibling() and stmts[0].type == NodeType.do)):
+                if not is_short_body_semicolon_needed(token):
                     token.erase()
                     return
 
diff --git a/pico_parse.py b/pico_parse.py
index 4a72f4f..32ce708 100644
--- a/pico_parse.py
+++ b/pico_parse.py
@@ -1087,6 +1087,11 @@ def is_vararg_expr(node):
     return node.type in (NodeType.call, NodeType.varargs)
 def is_short_block_stmt(node):
     return node.short and node.type in (NodeType.if_, NodeType.else_, NodeType.while_)
+def get_short_body_value(body, skip=()):
+    # the value of the first token to be output (stmts may have been erased or replaced)
+    for token in body.get_tokens():
+        if token.value not in (None, *skip):
+            return token.value
 def is_function_stmt(node):
     return node.type == NodeType.function and node.target
 
-- 
2.43.0


From 6034d1ee76472cfb0602fbc3b26816dc5007f2d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:16 +0000
Subject: [PATCH 28/93] fix: crash when a while loop with a folded negative
 condition became a shorthand

---
 pico_tokenize.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pico_tokenize.py b/pico_tokenize.py
index c21fecb..59782c1 100644
--- a/pico_tokenize.py
+++ b/pico_tokenize.py
@@ -272,7 +272,8 @@ class ConstToken(Token):
 
     @post_property_change
     def parent(m, old, new):
-        lazy_property.clear(m, "value")
+        if lazy_property.is_set(m, "parsed_value"): # else, was already replaced with an explicit value
+            lazy_property.clear(m, "value")
 
 class CommentHint(Enum):
     none = auto = preserve = lint = keep = ...
-- 
2.43.0


From 7739b17bc747d4e6366c015a6fd6c80f4edddb18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:06 +0000
Subject: [PATCH 29/93] fix: don't treat a local as a constant when functions
 are added to it (would produce invalid code)

---
 pico_constfold.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/pico_constfold.py b/pico_constfold.py
index ca1e72d..9c48d86 100644
--- a/pico_constfold.py
+++ b/pico_constfold.py
@@ -665,6 +665,17 @@ def fold_consts(ctxt, minify_opts, root, errors):
     in_const_ctxt = 0
     const_ctxt_fail = None
 
+    func_target_vars = set() # variables used as 'function var.member' - can't be replaced
+    
+    def find_func_target_vars(node):
+        if node.type == NodeType.function and node.target and node.target.type == NodeType.member:
+            base = node.target
+            while base.type == NodeType.member:
+                base = base.child
+            func_target_vars.add(base.var)
+
+    root.traverse_nodes(pre=find_func_target_vars)
+
     def skip_special(node):
         if node.type in (NodeType.local, NodeType.assign):
             # we traverse these specially in update_node_constval
@@ -702,7 +713,7 @@ def fold_consts(ctxt, minify_opts, root, errors):
                         else:
                             set_const(node, constval, ctxt, focus, in_const_ctxt)
 
-        elif node.type == NodeType.var and node.var and not node.new and not node.assignment:
+        elif node.type == NodeType.var and node.var and not node.new and not node.assignment and node.var not in func_target_vars:
             if node.var.constval:
                 set_const(node, node.var.constval, ctxt, focus, in_const_ctxt or node.var.is_const)
             elif node.var.is_const:
@@ -779,6 +790,7 @@ def fold_consts(ctxt, minify_opts, root, errors):
                 # (even if a global is assigned once, it's hard to tell if all its uses are after the assignment, so we close globals under --[[const]])
                 is_const = ((target.kind == VarKind.local and not target.var.reassigned) or
                             (is_const_ctxt and target.kind == VarKind.global_ and target.var.reassigned <= 1 and target.name not in ctxt.builtins))
+                is_const = is_const and target.var not in func_target_vars
             else:
                 is_const = is_const_ctxt = False
 
-- 
2.43.0


From da13ffe75717d5fda1ce3d28248d80bbbf73a806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:32 +0000
Subject: [PATCH 30/93] fix: a shorthand body must not begin with parens, as
 they would call the condition

---
 pico_constfold.py | 4 ++--
 pico_minify.py    | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pico_constfold.py b/pico_constfold.py
index 9c48d86..7e2310c 100644
--- a/pico_constfold.py
+++ b/pico_constfold.py
@@ -572,11 +572,11 @@ def fixup_syntax_between_all(root):
         stmt.parent.insert_token(stmt.parent.children.index(stmt), TokenType.punct, ";", near_next=True)
 
 def fixup_short_bodies(root):
-    # removing code may leave the body of a shorthand empty or beginning with a do block, neither of which is allowed
+    # removing code may leave the body of a shorthand empty or beginning with a do block or parens, none of which is allowed
     def visit(node):
         if is_short_block_stmt(node):
             body = node.then if node.type == NodeType.if_ else node.body
-            if get_short_body_value(body) in (None, "do"):
+            if get_short_body_value(body) in (None, "do", "("):
                 body.insert_token(0, TokenType.punct, ";")
 
     root.traverse_nodes(pre=visit)
diff --git a/pico_minify.py b/pico_minify.py
index 10d5738..bfd445a 100644
--- a/pico_minify.py
+++ b/pico_minify.py
@@ -122,8 +122,8 @@ def analyze_code_for_minify(root, focus, ctxt, safe_builtins):
                         has_empties = True
                     
                     if i == 0:
-                        # a shorthand cannot begin with a do block. (would be a longhand)
-                        starts_with_do = get_short_body_value(body, skip=(";",)) == "do" # (';'s before it may be removed)
+                        # a shorthand cannot begin with a do block (would be a longhand) or with parens (would be a call)
+                        starts_with_do = get_short_body_value(body, skip=(";",)) in ("do", "(") # (;'s before it may be removed)
                 
                 # empty bodies require extra ';'s to shorten, which worsens compression
                 to_short = allow_shorthand and not (has_empties and not focus.chars) and not starts_with_do
-- 
2.43.0


From e9904d5ab024c30dbf79bebc1fffb4a026a4fa90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:53 +0000
Subject: [PATCH 31/93] fix: a line comment ending with a closing bracket was
 cut short when turned into a block comment

---
 pico_output.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pico_output.py b/pico_output.py
index 675b70f..500ec87 100644
--- a/pico_output.py
+++ b/pico_output.py
@@ -349,8 +349,9 @@ def output_node(root, ctxt, minify=True, minify_wspace=None, minify_lines=None,
                 if comment.isblock:
                     comment_out = re.sub(r"\n\s*", " ", comment.value)
                 else:
-                    eqs = get_long_brackets_equals(comment.value)
-                    comment_out = f"--[{eqs}[{comment.value[2:-1]}]{eqs}]"
+                    comment_text = comment.value[2:-1]
+                    eqs = get_long_brackets_equals(comment_text)
+                    comment_out = f"--[{eqs}[{comment_text}]{eqs}]"
             else:
                 comment_out = comment.value
         
-- 
2.43.0


From 6183d82db60cfe48e188d332c2d3ae9662e3ea13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:49 +0000
Subject: [PATCH 32/93] fix: a line break was added before a new else (possibly
 inside a shorthand) when folding an empty elseif

---
 pico_constfold.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pico_constfold.py b/pico_constfold.py
index 7e2310c..fabc84a 100644
--- a/pico_constfold.py
+++ b/pico_constfold.py
@@ -642,8 +642,9 @@ def create_do_node_if_needed(node):
     return node
 
 def create_else_node(node, short=False):
-    else_token = Token.synthetic(TokenType.keyword, "else", node, prepend=True)
-    end_token = Token.synthetic(TokenType.keyword, "end", node, append=True)
+    near = node if node.children else node.parent # (an empty block has no location)
+    else_token = Token.synthetic(TokenType.keyword, "else", near, prepend=True)
+    end_token = Token.synthetic(TokenType.keyword, "end", near, append=True)
     return Node(NodeType.else_, [else_token, node, end_token], body=node, short=short)
 
 def remove_else_node(node):
-- 
2.43.0


From 72f1d250218ae5254a21760859f1513b5ba7ef29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:21 +0000
Subject: [PATCH 33/93] fix: safe minification reordered assignments that may
 call user code (merged under focus-tokens)

---
 pico_minify.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pico_minify.py b/pico_minify.py
index bfd445a..74cce0b 100644
--- a/pico_minify.py
+++ b/pico_minify.py
@@ -313,6 +313,10 @@ def minify_merge_assignments(prev, next, ctxt, safe_only, has_env):
     
     # check if prev's targets are used in next's sources or targets
 
+    # assigning to these may call user-defined code, which must see the original order of assignments
+    if safe_only and any(target.type != NodeType.var or (target.kind == VarKind.global_ and has_env) for target in prev.targets):
+        return
+
     require_trivial = False # True when prev.targets may be accessed indirectly from functions that may be called by next.soources
     allow_index = allow_member = True
     target_vars = []
-- 
2.43.0


From 0953122297cdfcdf6383d30193826c6488a7e33e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:16 +0000
Subject: [PATCH 34/93] fix: don't merge an assignment to a table with an
 assignment that reads it via # or builtins

---
 pico_minify.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/pico_minify.py b/pico_minify.py
index 74cce0b..a6b12a5 100644
--- a/pico_minify.py
+++ b/pico_minify.py
@@ -29,6 +29,12 @@ def minify_string_literal(ctxt, token, focus, value=None):
         # haven't found a good balanced heuristic for 'long' yet
         return format_string_literal(value, long=token.value.startswith('['))
 
+# builtins that may access the members of a table passed to them
+builtins_accessing_tables = {
+    "add", "all", "count", "del", "deli", "getmetatable", "inext", "ipairs", "next", "pairs",
+    "rawget", "rawlen", "rawset", "setmetatable", "unpack",
+}
+
 def get_node_bodies(node):
     if node.type in (NodeType.if_, NodeType.elseif):
         yield node.then
@@ -264,6 +270,9 @@ def node_contains_vars(root, vars):
     except StopTraverse:
         return True
 
+def may_access_tables(func, ctxt):
+    return ctxt.lang != Language.pico8 or func.name in builtins_accessing_tables
+
 def expr_is_trivial(root, ctxt, safe_only, allow_member=True, allow_index=True, allow_call=True, has_env=True):
     def visitor(expr):
         # nodes that cannot call user-defined code in any case
@@ -283,12 +292,15 @@ def expr_is_trivial(root, ctxt, safe_only, allow_member=True, allow_index=True,
         elif expr.type == NodeType.call:
             func = expr.func
             if (safe_only or not allow_call or
-                    not (func.type == NodeType.var and is_root_global_or_builtin_local(func) and not func.var.reassigned and func.name not in ctxt.builtins_with_callbacks)):
+                    not (func.type == NodeType.var and is_root_global_or_builtin_local(func) and not func.var.reassigned and func.name not in ctxt.builtins_with_callbacks) or
+                    (not allow_index and may_access_tables(func, ctxt))):
                 raise StopTraverse()
         elif expr.type == NodeType.member and not allow_member:
             raise StopTraverse()
         elif expr.type == NodeType.index and not allow_index:
             raise StopTraverse()
+        elif expr.type == NodeType.unary_op and expr.op == "#" and not allow_member: # (depends on the table's indexes)
+            raise StopTraverse()
         # nodes that may call user-defined code via metatables (E.g. member access, operators)
         elif safe_only:
             raise StopTraverse()
-- 
2.43.0


From dc6a12c4801473724b5769d9b0f2567633967b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:35 +0000
Subject: [PATCH 35/93] fix: keep a c-style comment turned into a '--' comment
 from fusing with a preceding '-'

---
 pico_output.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pico_output.py b/pico_output.py
index 500ec87..5d7d592 100644
--- a/pico_output.py
+++ b/pico_output.py
@@ -259,8 +259,8 @@ def format_string_literal(value, use_ctrl_chars=True, use_complex_long=True, lon
 def need_whitespace_between(ctxt, prev, next):
     if isinstance(prev, Comment):
         return False
-    if isinstance(next, Comment): # e.g. '-' followed by '--'
-        return prev.value.endswith(next.value[:1])
+    if isinstance(next, Comment): # e.g. '-' followed by '--' (c-style comments may be turned to '--' too)
+        return prev.value.endswith((next.value[:1], "-"))
 
     combined = prev.value + next.value
     ct, ce = tokenize(Source("<output>", combined), lang=ctxt.lang) # TODO: optimize?
-- 
2.43.0


From 9eacbdb4f045f7bcc5aeb568d643b3e5bdab2028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:50 +0000
Subject: [PATCH 36/93] fix: comments in an expression moved to a merged
 assignment could break a shorthand's line

---
 pico_parse.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pico_parse.py b/pico_parse.py
index 32ce708..57ae776 100644
--- a/pico_parse.py
+++ b/pico_parse.py
@@ -217,6 +217,9 @@ class Node(TokenNodeBase):
         def reset_location(token):
             token.idx, token.endidx = src.idx, src.endidx
             token.vline, token.modified = src.vline, True
+            if token.value != None:
+                for comment in token.children:
+                    comment.vline = src.vline
 
         existing.traverse_tokens(reset_location)
         m.children.insert(i, existing)
-- 
2.43.0


From 83988350e2bdd647426e9ceac530e3c50248506f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:34 +0000
Subject: [PATCH 37/93] fix: a global named like a builtin's table member (e.g.
 n) was renamed, except when accessed via _ENV

---
 pico_rename.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pico_rename.py b/pico_rename.py
index 5975849..e471a79 100644
--- a/pico_rename.py
+++ b/pico_rename.py
@@ -236,7 +236,10 @@ def rename_tokens(ctxt, root, rename_opts):
                         if not explicit and target_node.var and target_node.var.keys_kind != None:
                             return compute_effective_kind(node, target_node.var.keys_kind, explicit=True)
             
-            if (table_name, node.name) in preserved_members:
+            # (globals accessed through _ENV aren't table members used by builtins)
+            is_env_global = table_name == "_ENV" and node.name in ctxt.builtin_members and not node.name.startswith("__")
+
+            if (table_name, node.name) in preserved_members and not is_env_global:
                 member_excludes.add(node.name)
                 return None
             elif table_name == "_ENV" or members_as_globals:
-- 
2.43.0


From 7cc790eb153abdacb6213d4b250a547f46f8c76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:22 +0000
Subject: [PATCH 38/93] fix: when renaming members as globals, members could be
 renamed to the name of a preserved member

---
 pico_rename.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pico_rename.py b/pico_rename.py
index e471a79..b554bb9 100644
--- a/pico_rename.py
+++ b/pico_rename.py
@@ -194,6 +194,9 @@ def rename_tokens(ctxt, root, rename_opts):
     members_after_zero = set()
     locals_after_zero = set()
 
+    def is_preserved_global(name):
+        return name in preserved_globals or (members_as_globals and name in preserved_members)
+
     renamed_vars = set()
 
     def compute_effective_kind(node, kind, explicit):
@@ -241,6 +244,8 @@ def rename_tokens(ctxt, root, rename_opts):
 
             if (table_name, node.name) in preserved_members and not is_env_global:
                 member_excludes.add(node.name)
+                if members_as_globals:
+                    global_excludes.add(node.name)
                 return None
             elif table_name == "_ENV" or members_as_globals:
                 return compute_effective_kind(node, VarKind.global_, explicit=True)
@@ -251,7 +256,7 @@ def rename_tokens(ctxt, root, rename_opts):
                 if env_var and env_var.keys_kind != None:
                     return compute_effective_kind(node, env_var.keys_kind, explicit=True)
 
-            if node.var.implicit or node.name in preserved_globals:
+            if node.var.implicit or is_preserved_global(node.name):
                 global_excludes.add(node.name)
                 return None
 
@@ -312,7 +317,7 @@ def rename_tokens(ctxt, root, rename_opts):
         elif node.type == NodeType.sublang:
             for name, count in node.sublang.get_global_usages().items():
                 if is_identifier(name, ctxt.lang):
-                    if name in preserved_globals:
+                    if is_preserved_global(name):
                         global_excludes.add(name)
                     else:
                         global_uses[name] += count
@@ -321,6 +326,8 @@ def rename_tokens(ctxt, root, rename_opts):
                 if is_identifier(name, ctxt.lang):
                     if name in preserved_members:
                         member_excludes.add(name)
+                        if members_as_globals:
+                            global_excludes.add(name)
                     elif members_as_globals:
                         global_uses[name] += count
                     else:
-- 
2.43.0


From 2631e3fb3ae79b5550e3a1657e6858ffc1b59e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:42 +0000
Subject: [PATCH 39/93] fix: reading .p8/.lua files turned the carriage return
 character of the code into a line break

---
 pico_cart.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pico_cart.py b/pico_cart.py
index 659bf57..2efd598 100644
--- a/pico_cart.py
+++ b/pico_cart.py
@@ -687,7 +687,7 @@ def read_cart(path, format=None, **opts):
     if format in (None, CartFormat.auto):
         return read_cart_autodetect(path, **opts)
     elif format in (CartFormat.p8, CartFormat.code):
-        return read_cart_from_source(file_read_maybe_text(path), path=path, **opts)
+        return read_cart_from_source(file_read_maybe_text(path, newline=""), path=path, **opts)
     elif format == CartFormat.png:
         return read_cart_from_image(file_read(path), path=path, **opts)
     elif format in (CartFormat.rom, CartFormat.tiny_rom):
@@ -697,7 +697,7 @@ def read_cart(path, format=None, **opts):
     elif format == CartFormat.url:
         return read_cart_from_url(file_read_text(path).rstrip(), path=path, **opts)
     elif format == CartFormat.lua:
-        return read_cart_from_source(file_read_maybe_text(path), raw=True, path=path, **opts)
+        return read_cart_from_source(file_read_maybe_text(path, newline=""), raw=True, path=path, **opts)
     elif format == CartFormat.label:
         return read_cart_label(file_read(path), path=path, **opts)
     elif format == CartFormat.spritesheet:
-- 
2.43.0


From 763b403b891ae3605dc83a9e9381990f619bdfb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:20 +0000
Subject: [PATCH 40/93] fix: merging a meta section crashed

---
 pico_cart.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pico_cart.py b/pico_cart.py
index 2efd598..ebaed20 100644
--- a/pico_cart.py
+++ b/pico_cart.py
@@ -768,7 +768,10 @@ def merge_cart(dest, src, sections):
             dest.label = src.label
         elif section.startswith(k_meta_prefix):
             meta_name = section[len(k_meta_prefix):]
-            dest.meta[meta_name] = src.name[meta_name]
+            if meta_name in src.meta:
+                dest.meta[meta_name] = src.meta[meta_name]
+            else:
+                dest.meta.pop(meta_name, None)
         else:
             throw(f"unknown cart section: '{section}'")
 
-- 
2.43.0


From e7e3c24fdc7077c7960a3e548fb198de3543df36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:41 +0000
Subject: [PATCH 41/93] fix: assignments were merged though the first's value
 changes the table or key that the second assigns to, or vice versa

---
 pico_minify.py | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/pico_minify.py b/pico_minify.py
index a6b12a5..9e88211 100644
--- a/pico_minify.py
+++ b/pico_minify.py
@@ -270,6 +270,22 @@ def node_contains_vars(root, vars):
     except StopTraverse:
         return True
 
+def node_may_change(target):
+    """Return whether the tables or keys used in an assignment's target may be changed by any user-defined code"""
+    def visitor(node):
+        if node.type == NodeType.var:
+            if node.kind == VarKind.member or (node.kind == VarKind.local and not node.var.captured):
+                return
+        elif node.type == NodeType.const or node is target:
+            return
+        raise StopTraverse()
+
+    try:
+        target.traverse_nodes(visitor)
+        return False
+    except StopTraverse:
+        return True
+
 def may_access_tables(func, ctxt):
     return ctxt.lang != Language.pico8 or func.name in builtins_accessing_tables
 
@@ -361,6 +377,18 @@ def minify_merge_assignments(prev, next, ctxt, safe_only, has_env):
         if require_trivial and not expr_is_trivial(node, ctxt, safe_only, allow_member, allow_index, allow_call=False, has_env=has_env):
             return
     
+    # the tables and keys in next's targets would be read before (instead of after) calling prev's sources, so they mustn't be changed by them
+    next_targets = [node for node in next.targets if node.type != NodeType.var]
+    if (any(node_may_change(node) for node in next_targets) and
+            not all(expr_is_trivial(node, ctxt, safe_only, has_env=has_env) for node in prev.sources)):
+        return
+
+    # pico8 reads the locals used in prev's targets after calling prev's sources (which may change them), unless they're also being assigned
+    for node in next.targets:
+        if node.type == NodeType.var and node.kind == VarKind.local and node.var.captured:
+            if any(target.type != NodeType.var and node_contains_vars(target, (node.var,)) for target in prev.targets):
+                return
+
     # when reordering local declarations, ensure we don't change which local wins out among identically-named locals
     # (this relies on rename being done already!)
         
-- 
2.43.0


From 29d481dc4f46122bf27343f007b3149c9769cfbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:24 +0000
Subject: [PATCH 42/93] fix: removing the constants of an assignment let the
 call before them give values to the variables after them

---
 pico_constfold.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pico_constfold.py b/pico_constfold.py
index fabc84a..9cadef7 100644
--- a/pico_constfold.py
+++ b/pico_constfold.py
@@ -585,6 +585,12 @@ def erase_assign_targets(node, indices):
     if len(node.targets) < len(node.sources) and len(indices) == len(node.targets):
         indices.pop() # can't deal with this easily otherwise
 
+    # a call that becomes the last source mustn't start giving values to the targets after it
+    kept_sources = [i for i in range(len(node.sources)) if i not in indices]
+    if (kept_sources and is_vararg_expr(node.sources[kept_sources[-1]]) and kept_sources[-1] < len(node.sources) - 1 and
+            len(node.targets) - len(indices) > len(kept_sources)):
+        indices.remove(len(node.sources) - 1)
+
     def delete_array_item(node, array, i):
         child_i = node.children.index(array[i])
         node.remove_child(child_i)
-- 
2.43.0


From acefff53d46b36938cc4ee2ee0b9d8faa5827b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:12 +0000
Subject: [PATCH 43/93] fix: 'unknown expression' errors were located at the
 token after the offending one

---
 pico_parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pico_parse.py b/pico_parse.py
index 57ae776..715f11a 100644
--- a/pico_parse.py
+++ b/pico_parse.py
@@ -639,7 +639,7 @@ def parse(source, tokens, ctxt=None, super_root=None, lang=None, for_expr=False)
         elif token.type == TokenType.ident:
             return parse_var(token=token)
         else:
-            add_error("unknown expression", fail=True)
+            add_error("unknown expression", -1, fail=True)
 
     def compare_prec(op, prec):
         return (prec == None) or ((prec <= k_binary_op_precs[op]) if op in k_right_binary_ops else (prec < k_binary_op_precs[op]))
-- 
2.43.0


From c935c21a84778889e696d2473ce41db3d50ca1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:17 +0000
Subject: [PATCH 44/93] fix: --list-includes did not list the includes inside
 of included carts

---
 pico_preprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pico_preprocess.py b/pico_preprocess.py
index dc86e80..7a1f89e 100644
--- a/pico_preprocess.py
+++ b/pico_preprocess.py
@@ -97,7 +97,7 @@ def read_included_cart(orig_path, inc_name, out_i, outparts, outmappings, includ
     if include_notifier:
         include_notifier(inc_path)
 
-    inc_cart = read_cart(inc_path, **opts)
+    inc_cart = read_cart(inc_path, include_notifier=include_notifier, **opts)
     if e(tab_idx):
         trim_cart_to_tab(inc_cart, tab_idx)
 
-- 
2.43.0


From 2273db7e34d59fe52072759d8bd625af1fd20460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:57 +0000
Subject: [PATCH 45/93] fix: locations in code read from a url had no path

---
 pico_cart.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pico_cart.py b/pico_cart.py
index ebaed20..ba65d89 100644
--- a/pico_cart.py
+++ b/pico_cart.py
@@ -547,7 +547,7 @@ def pico_base64_decode(data, validate=False):
 def print_url_size(size, **kwargs):
     print_size("url", size - k_url_prefix_size, k_url_size, **kwargs)
 
-def read_cart_from_url(url, size_handler=None, **opts):
+def read_cart_from_url(url, path=None, size_handler=None, **opts):
     if size_handler:
         print_url_size(len(url), prefix="input", handler=size_handler)
 
@@ -569,7 +569,7 @@ def read_cart_from_url(url, size_handler=None, **opts):
         else:
             throw(f"Unknown url param: {key}")
 
-    cart = Cart()
+    cart = Cart(path=path)
 
     if code:
         codebuf = pico_base64_decode(code, validate=True).ljust(k_code_size, b'\0')
-- 
2.43.0


From 0d67a400f459d20d9effba3f23cac4d349f65b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:03 +0000
Subject: [PATCH 46/93] fix: locations in a single included tab were wrong
 after an inner include, a #-expression or in a non-text cart

---
 pico_preprocess.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/pico_preprocess.py b/pico_preprocess.py
index 7a1f89e..e3cc310 100644
--- a/pico_preprocess.py
+++ b/pico_preprocess.py
@@ -98,14 +98,13 @@ def read_included_cart(orig_path, inc_name, out_i, outparts, outmappings, includ
         include_notifier(inc_path)
 
     inc_cart = read_cart(inc_path, include_notifier=include_notifier, **opts)
+    if not inc_cart.code_map:
+        inc_cart.code_map = [CodeMapping(0, inc_path, inc_cart.code, 0, 0)]
     if e(tab_idx):
         trim_cart_to_tab(inc_cart, tab_idx)
 
-    if inc_cart.code_map:
-        for map in inc_cart.code_map:
-            outmappings.append(CodeMapping(out_i + map.idx, map.src_path, map.src_code, map.src_idx, map.src_line))
-    else:
-        outmappings.append(CodeMapping(out_i, inc_path, inc_cart.code, 0, 0))
+    for map in inc_cart.code_map:
+        outmappings.append(CodeMapping(out_i + map.idx, map.src_path, map.src_code, map.src_idx, map.src_line))
     outparts.append(inc_cart.code)
 
     return out_i + len(inc_cart.code)
@@ -139,7 +138,7 @@ def trim_cart_to_tab(cart, target_tab):
             new_code_map.clear()
         
         new_idx = max(map.idx - start, 0)
-        new_src_idx = map.src_idx + (start if map.src_path == cart.path else 0)
+        new_src_idx = map.src_idx + max(start - map.idx, 0)
 
         new_code_map.append(CodeMapping(new_idx, map.src_path, map.src_code, new_src_idx, map.src_line))
     cart.code_map = new_code_map
-- 
2.43.0


From 9174e0b5a6c69d28f5c4353419a524af75184df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:16 +0000
Subject: [PATCH 47/93] fix: lint/hint warnings were located by what
 minification made of the code, and --error-format tabbed crashed on picotron

---
 pico_process.py  | 8 ++++----
 picotron_defs.py | 4 +++-
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/pico_process.py b/pico_process.py
index fdf960d..d995be2 100644
--- a/pico_process.py
+++ b/pico_process.py
@@ -275,17 +275,17 @@ class Error:
     """An error (or warning) to be reported together with where in the source it occured"""
     def __init__(m, msg, token):
         m.msg, m.token = msg, token
+        m.source, m.idx = token.source, token.idx # (the token may be moved or erased by the time the error's reported)
 
     def __lt__(m, other):
-        return m.token.idx < other.token.idx
+        return m.idx < other.idx
 
     def format(m, fmt=None):
         fmt = default(fmt, ErrorFormat.common)
         tabbed = fmt == ErrorFormat.tabbed
-        token = m.token
-        loc = token.source.get_location(token.idx, tabs=tabbed) if token.source else SourceLocation("???", 0, 0, 0)
+        loc = m.source.get_location(m.idx, tabs=tabbed) if m.source else SourceLocation("???", 0, 0, 0)
         path = path_absolute(loc.path) if fmt == ErrorFormat.absolute else path_relative(loc.path)
-        if tabbed:
+        if tabbed and e(loc.tab):
             return f"{path} (tab {loc.tab:X}, line {loc.line + 1}, col {loc.col + 1}): {m.msg}"
         else:
             return f"{path}:{loc.line + 1}:{loc.col + 1}: {m.msg}"
diff --git a/picotron_defs.py b/picotron_defs.py
index bce30db..55278c2 100644
--- a/picotron_defs.py
+++ b/picotron_defs.py
@@ -178,6 +178,7 @@ class Cart64Source(Source):
     class SubSource(Source):
         def __init__(m, parent, fspath, file):
             m.parent, m.fspath, m.file = parent, fspath, file
+            m.orig_text = None
             # no super().__init__ - we override with properties
         
         @property
@@ -189,7 +190,7 @@ class Cart64Source(Source):
             return m.parent.path + "/" + m.fspath
 
         def get_location(m, idx, tabs=False): # (0-based)
-            return get_source_location(m.path, m.text, idx, m.file.line)
+            return get_source_location(m.path, default(m.orig_text, m.text), idx, m.file.line)
 
         @property
         def text(m):
@@ -197,6 +198,7 @@ class Cart64Source(Source):
 
         @text.setter
         def text(m, val):
+            m.orig_text = default(m.orig_text, m.text)
             m.file.raw_payload = encode_luastr(val)
         
     def __init__(m, cart, code_patterns=None):
-- 
2.43.0


From 127a3811ed1a28ae306a58626fe7527b668ab129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:16 +0000
Subject: [PATCH 48/93] fix: --lint-global ignored the used:: form that the
 lint hint has

---
 pico_lint.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/pico_lint.py b/pico_lint.py
index 82765a7..0235b63 100644
--- a/pico_lint.py
+++ b/pico_lint.py
@@ -12,7 +12,7 @@ def lint_code(ctxt, root, lint_opts):
     lint_unused_global = lint_opts.get("unused-global", True)
     lint_duplicate = lint_opts.get("duplicate", True)
     lint_duplicate_global = lint_opts.get("duplicate-global", True)
-    custom_globals = set(lint_opts.get("globals", ()))
+    custom_globals = set()
 
     def add_error(msg, node):
         errors.append(Error(msg, node))
@@ -26,15 +26,20 @@ def lint_code(ctxt, root, lint_opts):
     assigned_locals = set()
     # (builtin locals will end up both as used globals and used locals)
 
+    def add_lint_values(values):
+        for value in values:
+            if "::" not in value:
+                custom_globals.add(value)
+            elif value.startswith("used::"):
+                used_globals.add(str_after_first(value, "::"))
+
+    add_lint_values(lint_opts.get("globals", ()))
+
     def preprocess_tokens(token):
         if token.children:
             for comment in token.children:
                 if comment.hint == CommentHint.lint:
-                    for value in comment.hintdata:
-                        if "::" not in value:
-                            custom_globals.add(value)
-                        elif value.startswith("used::"):
-                            used_globals.add(str_after_first(value, "::"))
+                    add_lint_values(comment.hintdata)
 
     def preprocess_vars(node):
         if node.type == NodeType.var:
-- 
2.43.0


From 2def0573b20828f7543298011469462c3b26a02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:44 +0000
Subject: [PATCH 49/93] fix: duplicate label warnings were missed when the
 other label is more than one block outside of the function

---
 pico_parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pico_parse.py b/pico_parse.py
index 715f11a..bfed60e 100644
--- a/pico_parse.py
+++ b/pico_parse.py
@@ -108,7 +108,7 @@ class LabelScope:
         if var:
             return var
         elif m.parent and (crossfunc or m.parent.funcdepth == m.funcdepth):
-            return m.parent.find(name)
+            return m.parent.find(name, crossfunc)
     
     def chain(m, crossfunc=False):
         curr = m
-- 
2.43.0


From 84c6e2b21b1146156e19209d1c94d0b7bfe4a743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:54 +0000
Subject: [PATCH 50/93] fix: corrupt input files crashed with internal
 exceptions instead of being reported

---
 pico_cart.py       |  1 +
 pico_export.py     |  2 ++
 picotron_cart.py   |  1 +
 picotron_export.py |  2 ++
 utils.py           | 12 +++++++++++-
 5 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/pico_cart.py b/pico_cart.py
index ba65d89..372f890 100644
--- a/pico_cart.py
+++ b/pico_cart.py
@@ -682,6 +682,7 @@ def read_cart_autodetect(path, **opts):
     # plain text?
     return read_cart_from_source(text, raw=True, path=path, **opts)
 
+@reads_user_data
 def read_cart(path, format=None, **opts):
     """Read a cart from the given path, assuming it is in the given format"""
     if format in (None, CartFormat.auto):
diff --git a/pico_export.py b/pico_export.py
index 2930738..f3d8ae2 100644
--- a/pico_export.py
+++ b/pico_export.py
@@ -926,9 +926,11 @@ class FullExport(CartExport, FullExportBase):
             m.zip_copy(osx_zip, m.zip_mkdir(osx_zip, osx_sdlver_dir, "Current"), osx_sdlfw_pod)
             m.zip_copy(osx_zip, m.zip_mkdir(osx_zip, osx_sdlver_dir, "A"), osx_sdlfw_pod)
 
+@reads_user_data
 def read_pod_file(path):
     return PodFile(file_read(path))
 
+@reads_user_data
 def read_cart_export(path, format):
     """Read a CartExport from the given path, assuming it is in the given format"""
     if format == CartFormat.js:
diff --git a/picotron_cart.py b/picotron_cart.py
index c56d85a..44d20c5 100644
--- a/picotron_cart.py
+++ b/picotron_cart.py
@@ -622,6 +622,7 @@ def read_cart64_autodetect(path, **opts):
     # plain text?
     return read_cart64_from_source(data, raw=True, path=path, **opts)
 
+@reads_user_data
 def read_cart64(path, format=None, **opts):
     """Read a cart from the given path, assuming it is in the given format"""
     if format in (None, Cart64Format.auto):
diff --git a/picotron_export.py b/picotron_export.py
index 3f6a845..77c7b7b 100644
--- a/picotron_export.py
+++ b/picotron_export.py
@@ -235,9 +235,11 @@ class FullExport64(Cart64Export, FullExportBase):
             m.zip_copy(osx_zip, m.zip_mkdir(osx_zip, osx_sdlver_dir, "Current"), osx_sdl_indir)
             m.zip_copy(osx_zip, m.zip_mkdir(osx_zip, osx_sdlver_dir, "A"), osx_sdl_indir)
 
+@reads_user_data
 def read_sysrom_file(path):
     return SysRom(file_read(path))
 
+@reads_user_data
 def read_cart64_export(path, format):
     """Read a Cart64Export from the given path, assuming it is in the given format"""
     if format == Cart64Format.dat:
diff --git a/utils.py b/utils.py
index a636cfa..3c03502 100644
--- a/utils.py
+++ b/utils.py
@@ -1,4 +1,4 @@
-import os, sys, io, bisect, random, copy, collections, itertools, struct, array, re, traceback, hashlib, math, string, weakref, operator, heapq, time, json, tempfile, shutil
+import os, sys, io, bisect, random, copy, collections, functools, itertools, struct, zlib, array, re, traceback, hashlib, math, string, weakref, operator, heapq, time, json, tempfile, shutil
 from datetime import datetime, timedelta, timezone
 from functools import reduce, total_ordering, lru_cache, cmp_to_key
 from copy import copy, deepcopy
@@ -2673,6 +2673,16 @@ def throw(msg):
     """Unconditionally raise CheckError"""
     raise CheckError(msg)
 
+def reads_user_data(func):
+    """Decorator for functions that read the file at their path argument, to report corrupt data as a user error"""
+    @functools.wraps(func)
+    def wrapper(path, *args, **kwargs):
+        try:
+            return func(path, *args, **kwargs)
+        except (AssertionError, LookupError, ValueError, ArithmeticError, EOFError, StopIteration, SyntaxError, struct.error, zlib.error) as err:
+            raise CheckError(f"cannot read {path}: it's corrupt or not in the expected format ({typename(err)}: {err})") from err
+    return wrapper
+
 def desc(value):
     """Set a description (desc attr) of the given function"""
     def decorator(f):
-- 
2.43.0


From b82f92563b460ea5657604194e2650dd5a069fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:26 +0000
Subject: [PATCH 51/93] fix: hex escapes with whitespace, a sign or underscores
 were accepted

---
 pico_tokenize.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pico_tokenize.py b/pico_tokenize.py
index 59782c1..31bfa69 100644
--- a/pico_tokenize.py
+++ b/pico_tokenize.py
@@ -854,6 +854,10 @@ def ext_unicode_to_lang_str(value, lang):
         count += 1
     return lang_chr(((-0x80 >> count) & 0xff) + value, lang) + suffix
 
+def is_hex_str(str):
+    # (python's int also allows whitespace, signs & underscores)
+    return all(ch in string.hexdigits for ch in str)
+
 def parse_char_escape(str, pos, lang):
     "parse an escape sequence (pos is the position of the '\\', which isn't checked)"
 
@@ -871,7 +875,7 @@ def parse_char_escape(str, pos, lang):
     elif esc == 'x':
         end = pos + 4
         hex_esc = str[pos + 2 : end]
-        value = maybe_int(hex_esc, base=16)
+        value = maybe_int(hex_esc, base=16) if is_hex_str(hex_esc) else None
         if value is None:
             throw(f"Invalid hex escape: '{hex_esc}' in: '{str}'")
         return lang_chr(value, lang), end
@@ -891,7 +895,7 @@ def parse_char_escape(str, pos, lang):
         end = str.find("}", pos) + 1
         check(end > 0, f"Unterminated unicode escape in: '{str}'")
         uni_esc = str[pos + 3 : end - 1]
-        value = maybe_int(uni_esc, base=16)
+        value = maybe_int(uni_esc, base=16) if is_hex_str(uni_esc) else None
         if value is None or value >= 0x80000000:
             throw(f"Invalid uni escape: '{uni_esc}' in: '{str}'")
         return ext_unicode_to_lang_str(value, lang), end
-- 
2.43.0


From 7953269afbdd0cc028ac55734cccfee7794f2899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:54 +0000
Subject: [PATCH 52/93] fix: formats given to
 --merge/--extra-input/--extra-output could not contain '-', and unknown ones
 or missing files crashed

---
 run_shrinko.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/run_shrinko.py b/run_shrinko.py
index d368eff..bfb64a0 100644
--- a/run_shrinko.py
+++ b/run_shrinko.py
@@ -34,6 +34,12 @@ def EnumFromStr(enum_type):
     cvt.__name__ = enum_type.__name__
     return cvt
 
+def EnumFromArg(enum_type, name):
+    try:
+        return EnumFromStr(enum_type)(name)
+    except ValueError as err:
+        throw(str(err))
+
 def EnumList(enum_type, pred=None):
     list = enum_type._values
     if pred:
@@ -541,7 +547,7 @@ def create_main(lang):
                 if len(extra) == 1:
                     extra_inputs.append(InputDef(extra[0], default_format(extra[0], for_output=True)))
                 elif 3 >= len(extra) >= 2:
-                    extra_inputs.append(InputDef(extra[0], CartFormatCls(extra[1]), name=list_get(extra, 2)))
+                    extra_inputs.append(InputDef(extra[0], EnumFromArg(CartFormatCls, extra[1]), name=list_get(extra, 2)))
                 else:
                     throw("too many arguments to --extra-output")
         
@@ -561,7 +567,7 @@ def create_main(lang):
                 if len(merge) == 2:
                     extra_inputs.append(InputDef(merge[0], default_format(merge[0]), sections=SplitBySeps(merge[1])))
                 elif len(merge) == 3:
-                    extra_inputs.append(InputDef(merge[0], CartFormatCls(merge[2]), sections=SplitBySeps(merge[1])))
+                    extra_inputs.append(InputDef(merge[0], EnumFromArg(CartFormatCls, merge[2]), sections=SplitBySeps(merge[1])))
                 else:
                     throw("too many or few arguments to --merge (must be 2 or 3)")
         
@@ -697,7 +703,7 @@ def create_main(lang):
                 if len(extra) == 1:
                     all_outputs.append(OutputDef(extra[0], default_format(extra[0], for_output=True)))
                 elif len(extra) == 2:
-                    all_outputs.append(OutputDef(extra[0], CartFormatCls(extra[1])))
+                    all_outputs.append(OutputDef(extra[0], EnumFromArg(CartFormatCls, extra[1])))
                 else:
                     throw("too many arguments to --extra-output (must be 1 or 2)")
         
@@ -764,6 +770,10 @@ def create_main(lang):
                 return ErrCodes.include
             else:
                 return ErrCodes.fail
+        except OSError as err:
+            sys.stdout.flush()
+            eprint(f"ERROR: {err}")
+            return ErrCodes.fail
         except RecursionError:
             sys.stdout.flush()
             eprint("ERROR: code is nested too deeply")
-- 
2.43.0


From cdb54871ae4d9491a6bbf24aafc6cdbdd0fd7e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:33 +0000
Subject: [PATCH 53/93] fix: editing an export changed the line breaks of its
 js or html

---
 pico_export.py     | 2 +-
 picotron_export.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pico_export.py b/pico_export.py
index f3d8ae2..4ad7ff0 100644
--- a/pico_export.py
+++ b/pico_export.py
@@ -934,7 +934,7 @@ def read_pod_file(path):
 def read_cart_export(path, format):
     """Read a CartExport from the given path, assuming it is in the given format"""
     if format == CartFormat.js:
-        return JsExport(file_read_text(path))
+        return JsExport(file_read_text(path, newline=""))
     if format == CartFormat.pod:
         return PodExport(file_read(path))
     if format == CartFormat.dat:
diff --git a/picotron_export.py b/picotron_export.py
index 77c7b7b..90fa616 100644
--- a/picotron_export.py
+++ b/picotron_export.py
@@ -245,7 +245,7 @@ def read_cart64_export(path, format):
     if format == Cart64Format.dat:
         return SysRomExport64(file_read(path))
     elif format == Cart64Format.html:
-        return HtmlExport64(file_read_text(path))
+        return HtmlExport64(file_read_text(path, newline=""))
     else:
         throw(f"invalid export format: {format}")
 
-- 
2.43.0


From 15420fad1ed44ba6745667d660773780d5984479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:33 +0000
Subject: [PATCH 54/93] fix: cart names with commas, brackets or quotes broke
 js exports

---
 pico_export.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/pico_export.py b/pico_export.py
index 4ad7ff0..32d52da 100644
--- a/pico_export.py
+++ b/pico_export.py
@@ -92,12 +92,15 @@ class CartExport:
 class JsExport(CartExport):
     """A javascript file containing one or more carts"""
 
+    k_name_quotes = "`'\""
+    k_name_re = "|".join(f"{quote}[^{quote}]*{quote}" for quote in k_name_quotes)
+
     def __init__(m, text):
         super().__init__()
         m.text = text
     
     def find_cartnames(m):
-        match = re.search(r"var\s+_cartname\s*=\s*\[(.*?)\]", m.text, re.S)
+        match = re.search(rf"var\s+_cartname\s*=\s*\[((?:{m.k_name_re}|[^\]{m.k_name_quotes}])*)\]", m.text, re.S)
         if not match:
             throw("can't find _cartname var in js")
         return match
@@ -111,10 +114,8 @@ class JsExport(CartExport):
     def get_carts_impl(m):
         m.cartnames = []
         cartnames_text = m.find_cartnames().group(1)
-        if cartnames_text.strip():
-            for i, cartname in enumerate(cartnames_text.split(",")):
-                cartname = cartname.strip()[1:-1] # may fail if using special chars...
-                m.cartnames.append(cartname)
+        for cartname in re.findall(m.k_name_re, cartnames_text):
+            m.cartnames.append(cartname[1:-1]) # may fail if using js escapes...
 
         m.cartdata = bytearray(k_cart_size * len(m.cartnames))
         cartdata_text = m.find_cartdata().group(1)
@@ -152,8 +153,14 @@ class JsExport(CartExport):
         m.cartnames[i] = name
         m.finish_write()
 
+    def quote_name(m, name):
+        for quote in m.k_name_quotes:
+            if quote not in name:
+                return f"{quote}{name}{quote}"
+        throw(f"cart name not supported in js: {name}")
+
     def finish_write(m):
-        cartnames_text = ", ".join(f"`{name}`" for name in m.cartnames)
+        cartnames_text = ", ".join(map(m.quote_name, m.cartnames))
         m.text = str_replace_between(m.text, *m.find_cartnames().span(1), cartnames_text)
 
         cartdata_chunks = ["\n"]
-- 
2.43.0


From 40738bd218debbc1d9fb8890d2088878d6be51f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:12 +0000
Subject: [PATCH 55/93] fix: names too long for a pod export crashed instead of
 being refused

---
 pico_export.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pico_export.py b/pico_export.py
index 32d52da..1fab1e5 100644
--- a/pico_export.py
+++ b/pico_export.py
@@ -213,6 +213,7 @@ class PodFile:
     k_cmpr_bmp_header = "cBMP"
     k_pal_header = "CPAL"
     k_num_colors = 0x100
+    k_name_size = 0x40
 
     class Entry(Struct):
         header = pos = end_pos = name = content = ...
@@ -244,7 +245,7 @@ class PodFile:
                 if header in (m.k_file_header, m.k_cmpr_file_header):
                     check(r.u32() == 0, "unknown POD file header value")
                     size = r.u32()
-                    name = r.zstr(0x40)
+                    name = r.zstr(m.k_name_size)
                     if header == m.k_cmpr_file_header:
                         content = lz4_uncompress(r.bytes(r.u32()))
                     else:
@@ -350,7 +351,7 @@ class PodFile:
                 w.str(header)
                 w.u32(0)
                 w.u32(len(content))
-                w.zstr(name, 0x40)
+                w.zstr(name, m.k_name_size)
                 write_bytes(w, content)
             
             elif isinstance(content, Surface):
@@ -425,7 +426,7 @@ class PodFile:
         e = m.entries[i]
         if isinstance(e.content, bytes):
             buf = BinaryBuffer(m.data)
-            buf.w_zstr(e.pos + 0xc, name, 0x40)
+            buf.w_zstr(e.pos + 0xc, name, m.k_name_size)
             e.name = name
 
     def dump_contents(m, dest, fmt, misc=False):
@@ -596,7 +597,12 @@ class PodExport(CartExport, PodFile):
         _, bytes = tuple
         return read_cart_from_rom(bytes, **opts)
     
+    def check_name(m, name):
+        if len(name.encode()) > m.k_name_size:
+            throw(f"cart name too long for pod: {name}")
+
     def insert_impl(m, tuple, name, cart, **opts):
+        m.check_name(name)
         if e(tuple):
             i, _ = tuple
         else:
@@ -618,6 +624,7 @@ class PodExport(CartExport, PodFile):
         m.delete_content(i)
 
     def rename_impl(m, tuple, name):
+        m.check_name(name)
         i, _ = tuple
         m.rename_content(i, name)
         
-- 
2.43.0


From 958aaef22e82da91c5d0dfab51b3ba90231af82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:46 +0000
Subject: [PATCH 56/93] fix: files inside of a directory that isn't itself in
 the cart (e.g. due to --filter) were dropped when writing to a dir

---
 picotron_cart.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/picotron_cart.py b/picotron_cart.py
index 44d20c5..459f291 100644
--- a/picotron_cart.py
+++ b/picotron_cart.py
@@ -587,13 +587,16 @@ def write_cart64_to_fs(cart, path, is_dir=None, fspath=None, delete_existing=Fal
             fspath += "/"
         dir_create(path, delete_existing=delete_existing)
 
-        for child_fspath, file in cart.files.items():
-            if child_fspath.startswith(fspath):
-                child = child_fspath[len(fspath):]
-                if child.count("/") == (1 if file.is_dir else 0):
-                    child_path = path_join(path, child)
-                    check(path_is_inside(child_path, path), f"'{child_path}' is outside '{path}'")
-                    write_cart64_to_fs(cart, child_path, file.is_dir, child_fspath, **opts)
+        children = {}
+        for child_fspath in cart.files:
+            if child_fspath.startswith(fspath) and child_fspath != fspath:
+                name, dir_sep, _ = child_fspath[len(fspath):].partition("/")
+                children[name + dir_sep] = True # (the directory itself may be missing from files)
+
+        for child in children:
+            child_path = path_join(path, child)
+            check(path_is_inside(child_path, path), f"'{child_path}' is outside '{path}'")
+            write_cart64_to_fs(cart, child_path, child.endswith("/"), fspath + child, **opts)
     else:
         if path_is_dir(path):
             path = path_join(path, path_basename(fspath)) # good default
-- 
2.43.0


From 16ebd7eef85282296f849e825a8ee094f8d8f8cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:45 +0000
Subject: [PATCH 57/93] fix: directories could not be extracted by --extract

---
 picotron_cart.py | 4 ++--
 run_shrinko.py   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/picotron_cart.py b/picotron_cart.py
index 459f291..8989b23 100644
--- a/picotron_cart.py
+++ b/picotron_cart.py
@@ -579,8 +579,8 @@ def write_cart64_to_fs(cart, path, is_dir=None, fspath=None, delete_existing=Fal
         fspath = ""
     
     if is_dir is None:
-        file = cart.files.get(fspath)
-        is_dir = file.is_dir if file else False
+        dir_fspath = fspath.rstrip("/") + "/"
+        is_dir = any(child_fspath.startswith(dir_fspath) for child_fspath in cart.files)
 
     if is_dir:
         if fspath and not fspath.endswith("/"):
diff --git a/run_shrinko.py b/run_shrinko.py
index bfb64a0..364c6be 100644
--- a/run_shrinko.py
+++ b/run_shrinko.py
@@ -710,7 +710,7 @@ def create_main(lang):
         if args.extract:
             for extract in args.extract:
                 if len(extract) == 1:
-                    all_outputs.append(OutputDef(path_basename(extract[0]), CartFormatCls.fs, extract[0]))
+                    all_outputs.append(OutputDef(path_basename(extract[0].rstrip("/")), CartFormatCls.fs, extract[0]))
                 elif len(extract) == 2:
                     all_outputs.append(OutputDef(extract[1], CartFormatCls.fs, extract[0]))
                 else:
-- 
2.43.0


From dccdb6fdc64f91bff9514c89c2fe32b342056365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:56 +0000
Subject: [PATCH 58/93] fix: --merge without a filter was refused for picotron
 carts

---
 run_shrinko.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/run_shrinko.py b/run_shrinko.py
index 364c6be..d5733f7 100644
--- a/run_shrinko.py
+++ b/run_shrinko.py
@@ -564,12 +564,14 @@ def create_main(lang):
 
         if args.merge:
             for merge in args.merge:
-                if len(merge) == 2:
+                if len(merge) == 1 and is_picotron:
+                    extra_inputs.append(InputDef(merge[0], default_format(merge[0]), sections=("*",)))
+                elif len(merge) == 2:
                     extra_inputs.append(InputDef(merge[0], default_format(merge[0]), sections=SplitBySeps(merge[1])))
                 elif len(merge) == 3:
                     extra_inputs.append(InputDef(merge[0], EnumFromArg(CartFormatCls, merge[2]), sections=SplitBySeps(merge[1])))
                 else:
-                    throw("too many or few arguments to --merge (must be 2 or 3)")
+                    throw("too many or few arguments to --merge (must be %s)" % ("2 or 3" if is_pico8 else "1 through 3"))
         
         if args.label:
             extra_inputs.append(InputDef(args.label, CartFormatCls.label, sections=(label_section,)))
-- 
2.43.0


From 89da21376c710e8d3fe36a862f54dad18d778e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:43 +0000
Subject: [PATCH 59/93] fix: pods with integers close to the minimum were
 written as floats

---
 pico_output.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pico_output.py b/pico_output.py
index 5d7d592..035bd35 100644
--- a/pico_output.py
+++ b/pico_output.py
@@ -124,7 +124,8 @@ def format_luanum(value, sign=None, base=None, allow_not=True):
         if base is None or base == 10:
             decvalue = "%d" % value
             if base:
-                minvalue = decvalue
+                # large decimals aren't parsed as integers
+                minvalue = decvalue if value < 0x8000000000000000 or e(sign) else "0x%x" % value
 
         if not base:
             if value >= 0x8000000000000000:
@@ -137,7 +138,7 @@ def format_luanum(value, sign=None, base=None, allow_not=True):
         
         if sign is None and value & 0x8000000000000000 and value != 0x8000000000000000:
             negvalue = format_luanum(value, sign='-', base=base)
-            if len(negvalue) < len(minvalue):
+            if len(negvalue) < len(minvalue) or base == 10:
                 minvalue = negvalue
                 
             if allow_not:
-- 
2.43.0


From 509a282f9e77fd7d45c5123021e1ca4d360f9600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:57 +0000
Subject: [PATCH 60/93] fix: boolean keys in pods could turn into numbers or
 get lost

---
 picotron_fs.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/picotron_fs.py b/picotron_fs.py
index e0664ca..4a8ddbc 100644
--- a/picotron_fs.py
+++ b/picotron_fs.py
@@ -34,6 +34,12 @@ def parse_pod(pod, ud_handler=None):
     def add_error(msg, node):
         value_errors.append(Error(msg, node))
 
+    def set_item(table, key, value, node):
+        # (unlike in lua, python's True/False and 1/0 are the same keys)
+        if key in table and any(old == key and isinstance(old, bool) != isinstance(key, bool) for old in table):
+            add_error(f"unsupported table with both boolean and number keys: {key}", node)
+        table[key] = value
+
     def node_to_value(node):
         if node.type == NodeType.const:
             if node.token.type in (TokenType.number, TokenType.string):
@@ -68,7 +74,7 @@ def parse_pod(pod, ud_handler=None):
                 if item.type == NodeType.table_index:
                     key, value = node_to_value(item.key), node_to_value(item.value)
                     if e(key) and e(value):
-                        table[key] = value
+                        set_item(table, key, value, item)
                 elif item.type == NodeType.table_member:
                     value = node_to_value(item.value)
                     if e(value):
@@ -76,7 +82,7 @@ def parse_pod(pod, ud_handler=None):
                 else:
                     value = node_to_value(item)
                     if e(value):
-                        table[index] = value
+                        set_item(table, index, value, item)
                     index += 1
             return table
         
@@ -138,7 +144,7 @@ def format_pod(value, ud_handler=None):
         index = 1
         parts = []
         for key, child in value.items():
-            if key == index:
+            if key == index and key is not True:
                 parts.append(format_pod(child, ud_handler))
                 index += 1
             elif isinstance(key, str) and is_identifier(key, Language.picotron):
-- 
2.43.0


From c7dfa81cb438e5e74e594829d06d3d3f9bdbd9b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:55 +0000
Subject: [PATCH 61/93] fix: corrupt pods crashed with internal exceptions
 instead of being reported

---
 picotron_fs.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/picotron_fs.py b/picotron_fs.py
index 4a8ddbc..13c0200 100644
--- a/picotron_fs.py
+++ b/picotron_fs.py
@@ -35,6 +35,10 @@ def parse_pod(pod, ud_handler=None):
         value_errors.append(Error(msg, node))
 
     def set_item(table, key, value, node):
+        if isinstance(key, dict):
+            add_error("unsupported table with table keys", node)
+            return
+
         # (unlike in lua, python's True/False and 1/0 are the same keys)
         if key in table and any(old == key and isinstance(old, bool) != isinstance(key, bool) for old in table):
             add_error(f"unsupported table with both boolean and number keys: {key}", node)
@@ -65,7 +69,7 @@ def parse_pod(pod, ud_handler=None):
             if len(ud_args) == 0 and ud_handler and (userdata := ud_handler()):
                 return userdata
 
-            add_error(f"unknown userdata params: {ud_args}")
+            add_error(f"unknown userdata params: {ud_args}", node)
 
         elif node.type == NodeType.table:
             table = {}
@@ -91,7 +95,7 @@ def parse_pod(pod, ud_handler=None):
             if isinstance(value, str):
                 return read_pod(encode_luastr(value))
                 
-            add_error(f"unknown unpod param: {value}")
+            add_error(f"unknown unpod param: {value}", node)
 
         else:
             add_error(f"unknown pod syntax {node.type}", node)
@@ -211,11 +215,12 @@ def read_pxu(data, idx):
     with BinaryReader(BytesIO(data)) as r:
         r.setpos(idx)
         check(r.bytes(4) == k_pxu_prefix, "wrong pxu header")
+        raw_flags = r.u16()
         try:
-            flags = PxuFlags(r.u16())
+            flags = PxuFlags(raw_flags)
             type, compression = flags.type, flags.compression
         except ValueError:
-            throw(f"unsupported pxu flags: {flags}")
+            throw(f"unsupported pxu flags: {raw_flags:#x}")
 
         width = r.u32() if flags.long_size else r.u8()
         height = (r.u32() if flags.long_size else r.u8()) if flags.has_height else 1
@@ -272,7 +277,12 @@ def read_pxu(data, idx):
 
 def read_pod(value):
     """Reads a picotron pod from possibly compressed bytes"""
+    try:
+        return _read_pod(value)
+    except (AssertionError, LookupError, ValueError, struct.error) as err:
+        throw(f"Corrupt POD ({typename(err)}: {err}) - use --keep-pod-compression to leave it as-is")
 
+def _read_pod(value):
     if value.startswith(k_b64_prefix):
         value = pico_base64_decode(value[4:])
 
-- 
2.43.0


From 26b415c9067950aafa7b6611284daa5d5b738529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:03 +0000
Subject: [PATCH 62/93] fix: userdata with a wrong amount of data was written
 in a way that broke the entire pod

---
 picotron_fs.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/picotron_fs.py b/picotron_fs.py
index 13c0200..7706c9e 100644
--- a/picotron_fs.py
+++ b/picotron_fs.py
@@ -328,6 +328,13 @@ def write_pxu(ud, runtime=sys.maxsize):
         return None
     
     with BinaryWriter() as w:
+        write_type, type_nybbles = get_pxu_type_info(type, w)
+
+        # the size of the data isn't stored in pxu, so it must match the dimensions
+        if not 0 <= ud.width <= 0xffffffff or not 0 <= ud.height <= 0xffffffff or \
+           len(ud.data) != ud.width * (ud.height or 1) * type_nybbles:
+            return None
+
         if type == PxuType.u8:
             compression = PxuCompression.mtf
             bits = 4 # other values are not yet observed/tested
@@ -349,8 +356,6 @@ def write_pxu(ud, runtime=sys.maxsize):
         if flags.has_height:
             (w.u32 if flags.long_size else w.u8)(ud.height)
         
-        write_type, type_nybbles = get_pxu_type_info(type, w)
-
         data = []
         try:
             for i in range(0, len(ud.data), type_nybbles):
-- 
2.43.0


From 711eb58e98990187bce3ba3aaaccbdeacb0a86b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:38 +0000
Subject: [PATCH 63/93] fix: carriage returns in files of p64 carts and the
 last newline of lua carts were lost on reading

---
 picotron_cart.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/picotron_cart.py b/picotron_cart.py
index 8989b23..faab606 100644
--- a/picotron_cart.py
+++ b/picotron_cart.py
@@ -442,7 +442,11 @@ def read_cart64_from_source(data, path=None, raw=False, **_):
     if not raw and not data.startswith(k_p64_prefix) and not data.startswith(k_p64_file_prefix): # fallback to raw
         raw = True
 
-    fspath = k_p64_main_path if raw else None
+    if raw:
+        cart.files[k_p64_main_path] = PicotronFile(data)
+        return cart
+
+    fspath = None
     lines = []
     line_start = 0
 
@@ -457,8 +461,15 @@ def read_cart64_from_source(data, path=None, raw=False, **_):
 
                 cart.files[fspath] = PicotronFile(data, line_start)
 
-    for line_i, line in enumerate(data.splitlines()):
-        if line.startswith(k_p64_file_prefix) and not raw:
+    # (a file may contain \r's of its own, unless the entire p64 uses \r\n)
+    src_lines = data.split(b"\n")
+    if src_lines[0].endswith(b"\r"):
+        src_lines = [str_remove_suffix(line, b"\r") for line in src_lines]
+    if not src_lines[-1]:
+        src_lines.pop()
+
+    for line_i, line in enumerate(src_lines):
+        if line.startswith(k_p64_file_prefix):
             flush()
             lines = []
             line_start = line_i + 1
@@ -473,9 +484,7 @@ def read_cart64_from_source(data, path=None, raw=False, **_):
         else:
             lines.append(line)
 
-    if raw:
-        flush()
-    elif fspath:
+    if fspath:
         throw(f"expected {k_p64_end_file} in p64")
 
     return cart
-- 
2.43.0


From b891284e35b5918e4d3b6d29ccd05a2572bd9651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:38 +0000
Subject: [PATCH 64/93] fix: files starting with b64$ were written to p64 carts
 in a way that is read back as base64

---
 picotron_cart.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/picotron_cart.py b/picotron_cart.py
index faab606..e10cfa5 100644
--- a/picotron_cart.py
+++ b/picotron_cart.py
@@ -489,8 +489,8 @@ def read_cart64_from_source(data, path=None, raw=False, **_):
 
     return cart
 
-k_max_bad_p64_char_re = b"[\x00-\x08\x0b-\x0c\x0e-\x1f\x7f-\xff]|^" + k_p64_file_prefix
-k_min_bad_p64_char_re = b"\x00|^" + k_p64_file_prefix
+k_max_bad_p64_char_re = b"[\x00-\x08\x0b-\x0c\x0e-\x1f\x7f-\xff]|^" + k_p64_file_prefix + b"|\\A" + re.escape(k_p64_b64_prefix)
+k_min_bad_p64_char_re = b"\x00|^" + k_p64_file_prefix + b"|\\A" + re.escape(k_p64_b64_prefix)
 
 def preview_order_key(pair):
     # we prefer to sort p64 files for better visibility of code, e.g. in the webapp's preview
-- 
2.43.0


From fc3e42b6df3980abc15f19d69e6cba5409ebe5ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:46 +0000
Subject: [PATCH 65/93] fix: escaped windows line breaks in strings were
 treated as unterminated strings

---
 pico_tokenize.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pico_tokenize.py b/pico_tokenize.py
index 31bfa69..e749040 100644
--- a/pico_tokenize.py
+++ b/pico_tokenize.py
@@ -639,6 +639,8 @@ def tokenize(source, ctxt=None, all_comments=False, lang=None, inner=False):
                 if accept('z'): # skip line breaks
                     while peek() and peek() in k_wspace:
                         take()
+                elif accept('\r'): # windows line break
+                    accept('\n')
                 else:
                     take() # at least
             elif ch == quote:
@@ -866,6 +868,9 @@ def parse_char_escape(str, pos, lang):
     if esc_ch:
         return esc_ch, pos + 2
 
+    elif esc == '\r': # windows line break
+        return "\n", pos + (3 if str_get(str, pos + 2) == '\n' else 2)
+
     elif esc == 'z':
         end = pos + 2
         while str_get(str, end, 'x') in k_wspace:
-- 
2.43.0


From 5e0c41a0b63317f1dd9865920bb1279e195bb668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:18 +0000
Subject: [PATCH 66/93] fix: tiny roms with less than 3 characters of code
 could not be read

---
 picotron_cart.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/picotron_cart.py b/picotron_cart.py
index e10cfa5..138d8e2 100644
--- a/picotron_cart.py
+++ b/picotron_cart.py
@@ -167,7 +167,7 @@ def read_cart64_from_rom(buffer, path=None, allow_tiny=False, size_handler=None,
     cart = Cart64(path=path)
     
     with BinaryReader(BytesIO(buffer)) as r:
-        if r.bytes(3) == k_rom_header_sig:
+        if r.bytes(3, allow_eof=True) == k_rom_header_sig:
             cart.version_id = r.u8()
             size = r.u32()
             if size_handler:
-- 
2.43.0


From 11610dcf1fc0477885fd2a0cd8d64e983420438c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:55 +0000
Subject: [PATCH 67/93] fix: preserved globals were renamed in sub-language
 strings when renaming members as globals

---
 pico_rename.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pico_rename.py b/pico_rename.py
index b554bb9..e20dabe 100644
--- a/pico_rename.py
+++ b/pico_rename.py
@@ -324,7 +324,7 @@ def rename_tokens(ctxt, root, rename_opts):
 
             for name, count in node.sublang.get_member_usages().items():
                 if is_identifier(name, ctxt.lang):
-                    if name in preserved_members:
+                    if name in preserved_members or (members_as_globals and is_preserved_global(name)):
                         member_excludes.add(name)
                         if members_as_globals:
                             global_excludes.add(name)
-- 
2.43.0


From 04d87a73079fd3d21f22c07fc9c3c66b9cd653d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:55 +0000
Subject: [PATCH 68/93] fix: wildcard preserve rules for globals were ignored
 under safe-only renaming

---
 pico_rename.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pico_rename.py b/pico_rename.py
index e20dabe..6dfc719 100644
--- a/pico_rename.py
+++ b/pico_rename.py
@@ -174,7 +174,8 @@ def rename_tokens(ctxt, root, rename_opts):
         # but it seems more useful to assume it won't
 
         preserved_members.default = True # can't reasonably guarantee safety of this
-        preserved_globals.default = can_access_globals
+        if can_access_globals:
+            preserved_globals.default = True
 
     # collect uses of identifier
     # (e.g. to give priority to more frequently used ones)
-- 
2.43.0


From 0f8cce87469eb718aefd6ab97fbe4b3a9d8b859f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:22 +0000
Subject: [PATCH 69/93] fix: output depended on the order in which the file
 system lists directories

---
 picotron_cart.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/picotron_cart.py b/picotron_cart.py
index 138d8e2..788434e 100644
--- a/picotron_cart.py
+++ b/picotron_cart.py
@@ -570,7 +570,7 @@ def read_cart64_from_fs(path, is_dir=None, target_cart=None, fspath=None, sectio
                 fspath += "/"
             target_cart.files[fspath] = PicotronDir()
 
-        for child in dir_names(path):
+        for child in sorted(dir_names(path)): # (the order must not depend on the file system)
             child_path = path_join(path, child)
             child_fspath = fspath + child
             read_cart64_from_fs(child_path, None, target_cart, child_fspath, sections, **opts)
-- 
2.43.0


From 04f5c9363d207a38dca7cfff60f852eae093b150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:22 +0000
Subject: [PATCH 70/93] fix: error messages named a variable instead of the
 missing file

---
 picotron_cart.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/picotron_cart.py b/picotron_cart.py
index 788434e..f0bd92e 100644
--- a/picotron_cart.py
+++ b/picotron_cart.py
@@ -533,7 +533,7 @@ def write_cart64_to_source(cart, avoid_base64=False, **opts):
 
 def write_cart64_to_raw_source(cart, **_):
     main = cart.files.get(k_p64_main_path)
-    check(main, "{k_p64_main_path} not found in cart")
+    check(main, f"{k_p64_main_path} not found in cart")
     return main.data
 
 k_fictive_main_pod = "main.pod" # not a real picotron concept
@@ -548,7 +548,7 @@ def read_cart64_from_single_pod(data, path=None, **_):
 
 def write_cart64_to_single_pod(cart, **_):
     main = cart.files.get(k_fictive_main_pod)
-    check(main, "{k_fictive_main_pod} not found in cart")
+    check(main, f"{k_fictive_main_pod} not found in cart")
     if main.raw_metadata == k_pod:
         main.raw_metadata = None
     return main.data
-- 
2.43.0


From 82ea79dafaab7ad06ed3ffe2ed5b9f6fc57f881d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:01 +0000
Subject: [PATCH 71/93] fix: identifiers preserved by a hint could clash with
 renamed ones

---
 pico_rename.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pico_rename.py b/pico_rename.py
index 6dfc719..f968f91 100644
--- a/pico_rename.py
+++ b/pico_rename.py
@@ -269,6 +269,12 @@ def rename_tokens(ctxt, root, rename_opts):
             elif node.name == "_ENV":
                 return None
 
+        elif kind == False: # preserved by a hint
+            if node.kind == VarKind.member:
+                member_excludes.add(node.name)
+            if node.kind == VarKind.global_ or members_as_globals:
+                global_excludes.add(node.name)
+
         return kind
 
     def is_after_zero(node):
-- 
2.43.0


From b5e58547aa1479d98d81bfe4a4ceb9a6246cd592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:42 +0000
Subject: [PATCH 72/93] fix: user rules preserving all members didn't apply to
 members accessed via _ENV that are named like a builtin's

---
 pico_rename.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pico_rename.py b/pico_rename.py
index f968f91..dc442af 100644
--- a/pico_rename.py
+++ b/pico_rename.py
@@ -87,6 +87,8 @@ def rename_tokens(ctxt, root, rename_opts):
     global_strings_cpy = ctxt.builtins | ctxt.builtin_callbacks
     preserved_globals = IncludeExcludeMapping(global_strings_cpy)
     preserved_members = TableMemberPairIncludeExcludeMapping(members=ctxt.builtin_members)
+    # globals accessed through _ENV aren't table members used by builtins (besides metamethods)
+    preserved_env_members = TableMemberPairIncludeExcludeMapping(members=(m for m in ctxt.builtin_members if m.startswith("__")))
     
     # read rename options (e.g. what to preserve)
 
@@ -103,6 +105,7 @@ def rename_tokens(ctxt, root, rename_opts):
         
         if "." in rule:
             preserved_members.set(rule.split(".", 1), value)
+            preserved_env_members.set(rule.split(".", 1), value)
         else:
             preserved_globals.set(rule, value)
 
@@ -173,7 +176,7 @@ def rename_tokens(ctxt, root, rename_opts):
         # in theory, picotron's 'include' can also do this if used to include a non-code file or a written-at-runtime file
         # but it seems more useful to assume it won't
 
-        preserved_members.default = True # can't reasonably guarantee safety of this
+        preserved_members.default = preserved_env_members.default = True # can't reasonably guarantee safety of this
         if can_access_globals:
             preserved_globals.default = True
 
@@ -240,10 +243,7 @@ def rename_tokens(ctxt, root, rename_opts):
                         if not explicit and target_node.var and target_node.var.keys_kind != None:
                             return compute_effective_kind(node, target_node.var.keys_kind, explicit=True)
             
-            # (globals accessed through _ENV aren't table members used by builtins)
-            is_env_global = table_name == "_ENV" and node.name in ctxt.builtin_members and not node.name.startswith("__")
-
-            if (table_name, node.name) in preserved_members and not is_env_global:
+            if (table_name, node.name) in (preserved_env_members if table_name == "_ENV" else preserved_members):
                 member_excludes.add(node.name)
                 if members_as_globals:
                     global_excludes.add(node.name)
-- 
2.43.0


From 97bedab7b708caad465b684fab23a7fd329c3985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:52 +0000
Subject: [PATCH 73/93] fix: preserve rules for a table didn't apply if the
 table had a rename hint

---
 pico_rename.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pico_rename.py b/pico_rename.py
index dc442af..d8c809d 100644
--- a/pico_rename.py
+++ b/pico_rename.py
@@ -224,7 +224,7 @@ def rename_tokens(ctxt, root, rename_opts):
             
             if node.parent.type == NodeType.member and node.parent.key == node and node.parent.child.type == NodeType.var:
                 var_node = node.parent.child
-                table_name = var_node.name
+                table_name = var_node.var.name if var_node.var else var_node.name # (node.name may already be renamed)
 
                 if not explicit and var_node.var and var_node.var.keys_kind != None:
                     return compute_effective_kind(node, var_node.var.keys_kind, explicit=True)
@@ -238,7 +238,7 @@ def rename_tokens(ctxt, root, rename_opts):
                     assign_i = table_node.parent.sources.index(table_node)
                     target_node = list_get(table_node.parent.targets, assign_i)
                     if target_node and target_node.type == NodeType.var:
-                        table_name = target_node.name
+                        table_name = target_node.var.name if target_node.var else target_node.name
 
                         if not explicit and target_node.var and target_node.var.keys_kind != None:
                             return compute_effective_kind(node, target_node.var.keys_kind, explicit=True)
-- 
2.43.0


From bbda27ec46e2cf42e2731d3f3684bde524eecc1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:11 +0000
Subject: [PATCH 74/93] fix: locals could be renamed to the name of a preserved
 global which is hinted to be renamed as a member

---
 pico_rename.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pico_rename.py b/pico_rename.py
index d8c809d..9614bf3 100644
--- a/pico_rename.py
+++ b/pico_rename.py
@@ -309,9 +309,9 @@ def rename_tokens(ctxt, root, rename_opts):
             # add to the scope based on real kind, as we need to avoid conflicts with preserved vars too
             if node.kind == VarKind.global_:
                 for scope in node.scope.chain():
-                    if node.effective_kind == VarKind.member: # rare, e.g. see --[[member-keys]] example
-                        scope.used_members.add(node.name)
-                    else:
+                    if node.effective_kind in (VarKind.member, None): # rare, e.g. see --[[member-keys]] example
+                        scope.used_members.add(node.name) # (preserved ones may be preserved as members)
+                    if node.effective_kind != VarKind.member:
                         scope.used_globals.add(node.name)
 
             elif node.kind in (VarKind.local, VarKind.label):
-- 
2.43.0


From ad37e6a6313d1a40c509af30245f99d873ba3006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:02 +0000
Subject: [PATCH 75/93] fix: picotron float integer-divisions were folded with
 the floor applied before rounding (1.0\.1 is 10.0)

---
 pico_constfold.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pico_constfold.py b/pico_constfold.py
index 9cadef7..a5807eb 100644
--- a/pico_constfold.py
+++ b/pico_constfold.py
@@ -195,8 +195,10 @@ def lua_idiv(lang, a, b):
     elif a.is_integer and b.is_integer and b.value != 0: # avoid relying on non-standard div-by-0 behaviour
         return LuaInteger(a.value // b.value)
     elif a.is_float_cvt and b.is_float_cvt and b.value != 0: # avoid relying on non-standard div-by-0 behaviour
-        result = a.float_value // b.float_value
-        if not math.isnan(result):
+        result = a.float_value / b.float_value # (python's // floors before rounding, lua's after)
+        if math.isfinite(result):
+            return LuaFloat(math.copysign(math.floor(result), result))
+        elif not math.isnan(result):
             return LuaFloat(result)
 
 def lua_mod(lang, a, b):
-- 
2.43.0


From 48bd3584d09e6b9fd048219691d3bcadaad069d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:02 +0000
Subject: [PATCH 76/93] fix: picotron float modulos with a zero result were
 folded to a zero of the wrong sign

---
 pico_constfold.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pico_constfold.py b/pico_constfold.py
index a5807eb..894f7e3 100644
--- a/pico_constfold.py
+++ b/pico_constfold.py
@@ -210,8 +210,10 @@ def lua_mod(lang, a, b):
     elif a.is_integer and b.is_integer and b.value != 0: # avoid relying on non-standard mod-by-0 behavior
         return LuaInteger(a.value % b.value)
     elif a.is_float_cvt and b.is_float_cvt and b.value != 0: # avoid relying on non-standard mod-by-0 behavior
-        result = a.float_value % b.float_value
-        if not math.isnan(result):
+        if math.isfinite(a.float_value):
+            result = math.fmod(a.float_value, b.float_value) # (a result of 0 has the sign of a, unlike with python's %)
+            if result != 0 and (result < 0) != (b.value < 0):
+                result += b.float_value
             return LuaFloat(result)
 
 def lua_eq(lang, a, b):
-- 
2.43.0


From e7206c90b3e62b9459347b66938c6cf175152679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:02 +0000
Subject: [PATCH 77/93] fix: picotron strings were compared by character
 instead of by byte when folding

---
 pico_constfold.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/pico_constfold.py b/pico_constfold.py
index 894f7e3..dedc93d 100644
--- a/pico_constfold.py
+++ b/pico_constfold.py
@@ -52,6 +52,12 @@ class LuaValue:
             return fixnum_to_signed(m.value)
         else:
             return m.value
+    @property
+    def string_value(m):
+        return encode_luastr(m.value) # to compare the bytes (for p8strs, the order remains the same)
+    @property
+    def eq_value(m):
+        return m.string_value if m.is_string else m.value
 
 class LuaNil(LuaValue):
     def __init__(m):
@@ -220,37 +226,37 @@ def lua_eq(lang, a, b):
     if a.is_number and b.is_number:
         return LuaBoolean(a.value == b.value)
     else:
-        return LuaBoolean(a.type == b.type and a.value == b.value)
+        return LuaBoolean(a.type == b.type and a.eq_value == b.eq_value)
     
 def lua_not_eq(lang, a, b):
     if a.is_number and b.is_number:
         return LuaBoolean(a.value != b.value)
     else:
-        return LuaBoolean(a.type != b.type or a.value != b.value)
+        return LuaBoolean(a.type != b.type or a.eq_value != b.eq_value)
 
 def lua_less(lang, a, b):
     if a.is_number and b.is_number:
         return LuaBoolean(a.signed_value < b.signed_value)
     elif a.is_string and b.is_string:
-        return LuaBoolean(a.value < b.value)
+        return LuaBoolean(a.string_value < b.string_value)
 
 def lua_less_eq(lang, a, b):
     if a.is_number and b.is_number:
         return LuaBoolean(a.signed_value <= b.signed_value)
     elif a.is_string and b.is_string:
-        return LuaBoolean(a.value <= b.value)
+        return LuaBoolean(a.string_value <= b.string_value)
 
 def lua_greater(lang, a, b):
     if a.is_number and b.is_number:
         return LuaBoolean(a.signed_value > b.signed_value)
     elif a.is_string and b.is_string:
-        return LuaBoolean(a.value > b.value)
+        return LuaBoolean(a.string_value > b.string_value)
 
 def lua_greater_eq(lang, a, b):
     if a.is_number and b.is_number:
         return LuaBoolean(a.signed_value >= b.signed_value)
     elif a.is_string and b.is_string:
-        return LuaBoolean(a.value >= b.value)
+        return LuaBoolean(a.string_value >= b.string_value)
 
 def lua_max(lang, a, b):
     if a.is_number and b.is_number:
-- 
2.43.0


From 85a97d6e472fed2c28c7cc22ab6ee8f8e98d1e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:03 +0000
Subject: [PATCH 78/93] fix: picotron locals with a close attribute were merged
 with the following locals, which isn't valid if these are to be closed too

---
 pico_minify.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pico_minify.py b/pico_minify.py
index 9e88211..e6efcdf 100644
--- a/pico_minify.py
+++ b/pico_minify.py
@@ -338,6 +338,10 @@ def minify_merge_assignments(prev, next, ctxt, safe_only, has_env):
     merge_prev = getattr(next.first_token(), "merge_prev", None)
     if merge_prev is False:
         return
+
+    # such locals must be closed if evaluating next raises (and there can only be one of them per declaration)
+    if prev.type == NodeType.local and any(target.attr and target.attr.value == "close" for target in prev.targets):
+        return
     
     # check if prev's targets are used in next's sources or targets
 
-- 
2.43.0


From 3dc79a586393cbc580c73aeb3147aa9c23b66134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:54 +0000
Subject: [PATCH 79/93] fix: keep hinted renames in source order (the rename
 map's order varied between runs)

---
 pico_rename.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pico_rename.py b/pico_rename.py
index 9614bf3..8eb75e5 100644
--- a/pico_rename.py
+++ b/pico_rename.py
@@ -201,14 +201,14 @@ def rename_tokens(ctxt, root, rename_opts):
     def is_preserved_global(name):
         return name in preserved_globals or (members_as_globals and name in preserved_members)
 
-    renamed_vars = set()
+    renamed_vars = {} # (used as an ordered set)
 
     def compute_effective_kind(node, kind, explicit):
         """get the identifier kind (global/member/etc) of a node, taking into account hints in the code"""
 
         if node.var.rename:
             node.name = node.var.rename
-            renamed_vars.add(node.var)
+            renamed_vars[node.var] = True
             if kind == VarKind.member:
                 member_excludes.add(node.name)
             elif kind == VarKind.global_:
-- 
2.43.0


From ec248265157d20e7044b5d21f8df1f661d5092a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:14 +0000
Subject: [PATCH 80/93] fix: notice when a rename hint makes a local hide a
 global with the same hinted name

---
 pico_rename.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pico_rename.py b/pico_rename.py
index 8eb75e5..f0539b2 100644
--- a/pico_rename.py
+++ b/pico_rename.py
@@ -372,7 +372,7 @@ def rename_tokens(ctxt, root, rename_opts):
             if next_ident not in keywords:
                 yield next_ident
 
-    def are_vars_compatible(var1, var2): # it is assumed var1 and var2 have the same name
+    def are_vars_compatible(var1, var2, hinted_name=None): # it is assumed var1 and var2 have the same name
         is_global1 = var1.kind in (VarKind.global_, VarKind.member)
         is_global2 = var2.kind in (VarKind.global_, VarKind.member)
 
@@ -384,9 +384,10 @@ def rename_tokens(ctxt, root, rename_opts):
             if lvar.kind == VarKind.label:
                 return True
             
-            if gvar.kind == VarKind.global_ and lvar.scope.has_used_globals and gvar.name in lvar.scope.used_globals:
+            gvar_name = default(hinted_name, gvar.name) # (the uses of hinted globals are listed under their new name)
+            if gvar.kind == VarKind.global_ and lvar.scope.has_used_globals and gvar_name in lvar.scope.used_globals:
                 return False
-            if gvar.kind == VarKind.member and lvar.scope.has_used_members and gvar.name in lvar.scope.used_members:
+            if gvar.kind == VarKind.member and lvar.scope.has_used_members and gvar_name in lvar.scope.used_members:
                 return False
             return True
 
@@ -462,7 +463,7 @@ def rename_tokens(ctxt, root, rename_opts):
 
     if renamed_vars:
         for var1, var2 in itertools.product(renamed_vars, renamed_vars):
-            if var1 != var2 and var1.rename == var2.rename and not are_vars_compatible(var1, var2):
+            if var1 != var2 and var1.rename == var2.rename and not are_vars_compatible(var1, var2, var1.rename):
                 throw(f"rename hint of {var1.name} to {var1.rename} conflicts with that of {var2.name} to {var2.rename}")
 
     # output the identifier mapping, if needed
-- 
2.43.0


From 49d74a0de763e745304c539464b8a12979a64595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:40:44 +0000
Subject: [PATCH 81/93] fix: restore the line endings of pico_tokenize.py
 (changed by mistake in 2648a5f)

---
 pico_tokenize.py | 1882 +++++++++++++++++++++++-----------------------
 1 file changed, 941 insertions(+), 941 deletions(-)

diff --git a/pico_tokenize.py b/pico_tokenize.py
index e749040..1415069 100644
--- a/pico_tokenize.py
+++ b/pico_tokenize.py
@@ -1,941 +1,941 @@
-from utils import *
-from pico_preprocess import k_wspace
-from pico_defs import Language, k_fixnum_mask, num_to_fixnum, num_to_luaint, is_luaint_in_range
-
-keywords = {
-    "and", "break", "do", "else", "elseif", "end", "false", 
-    "for", "function", "goto", "if", "in", "local", "nil", 
-    "not", "or", "repeat", "return", "then", "true", "until",
-    "while"
-}
-
-def split_hint_args(data, ctxt=None):
-    name, args = list_unpack(data.strip().split(" ", 1), 2, "")
-    name, args = name.strip(), args.strip()
-    if ctxt and ctxt.map_aliases:
-        name, args = ctxt.map_aliases(name, args)
-    return name, args
-
-class StopTraverse(BaseException):
-    pass
-
-k_skip_children = True # value returnable from traverse's pre-function
-
-class KeepCommentFlags(Bitmask):
-    first = last = ...
-
-class TokenNodeBase:
-    """Baseclass for syntax Tokens, syntax Nodes, and Comments.
-    The syntax tree is comprised of these and can be traversed via traverse_nodes or traverse_tokens"""
-
-    def __init__(m):
-        m.parent, m.children = None, ()
-
-    def __repr__(m):
-        return "%s(type=%s)" % (typename(m), m.type)
-
-    def __str__(m):
-        reprlist = []
-        for key, val in m.__dict__.items():
-            if key in ("parent", "children", "idx", "endidx", "vline", "lang", "modified", "source",
-                       "scope", "extra_i", "extra_children", "stmts", "globals", "members"):
-                continue
-            reprlist.append("%s=%r" % (key, val))
-        return "%s(%s)" % (typename(m), ", ".join(reprlist))
-    
-    @property
-    def source_text(m):
-        if m.source and m.idx != None and m.endidx != None:
-            return m.source.text[m.idx:m.endidx]
-        else:
-            return None
-    
-    def find_parent(m, type):
-        parent = m.parent
-        while parent and parent.type != type:
-            parent = parent.parent
-        return parent
-
-    def _sibling(m, delta):
-        parent = m.parent
-        if parent is None:
-            return None
-        i = parent.children.index(m) + delta
-        return list_get(parent.children, i)
-
-    def next_sibling(m): return m._sibling(1)
-    def prev_sibling(m): return m._sibling(-1)
-
-    def _adjacent(m, delta):
-        while m:
-            sib = m._sibling(delta)
-            if sib:
-                return sib
-            m = m.parent
-        return None
-
-    def _find_token(m, delta, adjacent=False):
-        i = 0 if delta > 0 else -1
-        if adjacent:
-            m = m._adjacent(delta)
-        while isinstance(m, Node):
-            if m.children:
-                m = m.children[i]
-            else:
-                m = m._adjacent(delta)
-        return m if m else Token.none
-
-    def next_token(m): return m._find_token(1, adjacent=True)
-    def prev_token(m): return m._find_token(-1, adjacent=True)
-
-    def first_token(m): return m._find_token(1)
-    def last_token(m): return m._find_token(-1)
-
-    def find_or_create_token(m, child_i=0, last=False):
-        for_child = child_i < len(m.children) and not last
-        if for_child:
-            m = m.children[child_i]
-        token = m.first_token() if for_child else m.next_token()
-        is_after = True
-        if token is Token.none:
-            token = m.next_token() if for_child else m.last_token()
-            is_after = for_child
-            if token is Token.none:
-                token = m.prev_token()
-                is_after = False
-                if token is Token.none:
-                    token = Token.dummy(m.source)
-                    # we should only reach here when m is an empty node of some kind
-                    m.append_existing(token)
-        return token, is_after
-
-    def traverse_nodes(m, pre=None, post=None, tokens=None, extra=False):
-        skip = pre(m) if pre else None
-        if not skip:
-            for child in m.children:
-                if isinstance(child, Node):
-                    child.traverse_nodes(pre, post, tokens, extra)
-                elif tokens:
-                    tokens(child)
-            if extra and hasattr(m, "extra_children"):
-                for child in m.extra_children:
-                    child.traverse_nodes(pre, post, tokens, extra)
-        if post: post(m)
-
-    def traverse_tokens(m, visit):
-        if isinstance(m, Token):
-            visit(m)
-        else:
-            for child in m.children:
-                if isinstance(child, Node):
-                    child.traverse_tokens(visit)
-                else:
-                    visit(child)
-    
-    def traverse_parents(m, visit):
-        parent = m.parent
-        while parent:
-            visit(parent)
-            parent = parent.parent
-
-    def collect_comments(m, irrelevant=False, flags=None):
-        comments = []
-        def visit(token):
-            nonlocal comments
-            comments += token.children
-        
-        if isinstance(flags, KeepCommentFlags):
-            first_token = m.first_token() if flags.first else None
-            last_token = m.last_token() if flags.last else None
-            if first_token:
-                visit(first_token)
-            if last_token and last_token != first_token:
-                visit(last_token)
-        else:
-            m.traverse_tokens(visit)
-
-        if irrelevant:
-            comments = [c for c in comments if c.hint != CommentHint.auto]
-        return comments
-
-    def add_extra_child(m, child):
-        if not hasattr(m, "extra_children"):
-            m.extra_children = []
-        child.parent = m
-        child.extra_i = len(m.extra_children)
-        m.extra_children.append(child)
-    
-    def is_extra_child(m):
-        return hasattr(m, "extra_i")
-    
-    def move(m): # create a "destructive" copy - old object is no longer usable unless replaced
-        cpy = copy(m)
-        for child in cpy.children:
-            child.parent = cpy
-        m.erase()
-        return cpy
-
-    def copy(m):
-        cpy = copy(m)
-        cpy.children = [child.copy() for child in m.children]
-        for child in cpy.children:
-            child.parent = cpy
-        for key, val in cpy.__dict__.items():
-            idx = list_find(m.children, val)
-            if idx >= 0:
-                cpy.__dict__[key] = cpy.children[idx]
-        return cpy
-
-class TokenType(Enum):
-    number = string = ident = keyword = punct = ...
-    compiler = ... # special
-
-class Token(TokenNodeBase):
-    """A pico8 token, at 'source'.text['idx':'endidx'] (which is equal to its 'value'). Its 'type' is a TokenType.
-    For number/string tokens, the actual value is 'parsed_value'
-    Its children are the comments *before* it, if any."""
-
-    def __init__(m, type, value, source, idx, endidx, vline, lang, modified=False):
-        super().__init__()
-        m.type, m.value, m.source, m.idx, m.endidx, m.vline, m.lang, m.modified = type, value, source, idx, endidx, vline, lang, modified
-    
-    def check(m, expected):
-        if isinstance(expected, tuple):
-            assert m.value in expected
-        else:
-            assert m.value == expected
-
-    def modify(m, value, expected=None):
-        if expected != None:
-            m.check(expected)
-        m.value = value
-        m.modified = True
-        lazy_property.clear(m, "parsed_value")
-    
-    def erase(m, expected=None):
-        if expected != None:
-            m.check(expected)
-        m.type, m.value, m.modified = None, None, True
-
-    def add_comments(m, comments, first=False):
-        if m.children == ():
-            m.children = []
-        if first:
-            m.children[0:0] = comments
-        else:
-            m.children += comments
-    
-    def remove_comments(m):
-        m.children = ()
-
-    @lazy_property
-    def parsed_value(m):
-        if m.type == TokenType.number:
-            if m.lang == Language.picotron:
-                return parse_luanum(m.value)
-            else:
-                return parse_fixnum(m.value)
-        elif m.type == TokenType.string:
-            return parse_string_literal(m.value, m.lang)
-        else:
-            return None
-
-    @classmethod
-    def dummy(cls, source):
-        idx = len(source.text) if source else 0
-        vline = sys.maxsize if source else 0
-        return cls(None, None, source, idx, idx, vline, None)
-
-    @classmethod
-    def synthetic(cls, type, value, other, append=False, prepend=False):
-        idx = other.endidx if append else other.idx
-        endidx = other.idx if prepend else other.endidx
-        return cls(type, value, other.source, idx, endidx, other.vline, other.lang, modified=True)
-
-Token.none = Token.dummy(None)
-
-class ConstToken(Token):
-    def __init__(m, type, parsed_value, other):
-        super().__init__(type, None, other.source, other.idx, other.endidx, other.vline, other.lang, modified=True)
-        m.parsed_value = parsed_value
-        lazy_property.clear(m, "value")
-
-    @lazy_property
-    def value(m): # used during going over chars for rename (tsk...) and for output when not minify-tokens
-                  # (but not used for output under minify-tokens)
-        if isinstance(m.parsed_value, (int, float)):
-            allow_unary = can_replace_with_unary(m.parent) if m.parent else True
-            format_num = format_fixnum if m.lang == Language.pico8 else format_luanum
-            return format_num(m.parsed_value, sign=None if allow_unary else "")
-        else:
-            return format_string_literal(m.parsed_value, long=False)
-
-    @post_property_change
-    def parent(m, old, new):
-        if lazy_property.is_set(m, "parsed_value"): # else, was already replaced with an explicit value
-            lazy_property.clear(m, "value")
-
-class CommentHint(Enum):
-    none = auto = preserve = lint = keep = ...
-
-k_keep_prefix = "keep:"
-
-class Comment(TokenNodeBase):
-    """A pico8 comment, optionally holding some kind of hint"""
-
-    def __init__(m, isblock, hint, hintdata=None, hintprefix="", source=None, idx=None, endidx=None, vline=None, modified=False):
-        super().__init__()
-        m.isblock, m.hint, m.hintdata, m.hintprefix = isblock, hint, hintdata, hintprefix
-        m.source, m.idx, m.endidx, m.vline, m.modified = source, idx, endidx, vline, modified
-
-    def modify(m, value):
-        m.value = value
-        m.modified = True
-
-    @property
-    def value(m):
-        return m.source_text
-
-def is_ident_char(ch, lang=Language.pico8):
-    return ('0' <= ch <= '9' or 'a' <= ch <= 'z' or 'A' <= ch <= 'Z' or ch == '_' or
-            (lang == Language.pico8 and (ch in ('\x1e', '\x1f') or ch >= '\x80')))
-
-def is_identifier(str, lang=Language.pico8):
-    return str and all(is_ident_char(ch, lang) for ch in str) and not str[:1].isdigit() and str not in keywords
-    
-k_identifier_split_re = r"([0-9A-Za-z_\x1e\x1f\x80-\xff]+)"
-
-k_hint_split_re = re.compile(r"[\s,]+")
-
-class NextTokenMods:
-    def __init__(m):
-        m.var_kind = m.keys_kind = m.is_const = m.func_kind = m.merge_prev = m.force_safe = m.sublang = m.rename = m.placeholder = None
-        m.comments = None
-        
-    def add_comment(m, cmt):
-        if m.comments is None:
-            m.comments = []
-        m.comments.append(cmt)
-
-def tokenize(source, ctxt=None, all_comments=False, lang=None, inner=False):
-    text = source.text
-    idx = 0
-    vline = 0
-    tokens = []
-    errors = []
-    real_tokens = None
-    next_mods = None
-    if lang is None:
-        lang = ctxt.lang if ctxt else Language.pico8
-    
-    is_pico8 = lang == Language.pico8
-    is_picotron = lang == Language.picotron
-
-    def peek(off=0):
-        i = idx + off
-        return text[i] if 0 <= i < len(text) else ''
-
-    def take():
-        nonlocal idx
-        ch = peek()
-        idx += 1
-        return ch
-
-    def accept(ch,):
-        nonlocal idx
-        if peek() == ch:
-            idx += 1
-            return True
-        return False
-
-    def accept_one_of(*chs):
-        nonlocal idx
-        if peek() in chs:
-            idx += 1
-            return True
-        return False
-
-    def get_next_mods():
-        nonlocal next_mods
-        if next_mods is None:
-            next_mods = NextTokenMods()
-        return next_mods
-
-    def add_token(type, start, end_off=0, value=None):
-        end = idx + end_off
-        if value is None and type is not None: # (dummy tokens have type==value==None)
-            value = text[start:end]
-        token = Token(type, value, source, start, end, vline, lang)
-        tokens.append(token)
-        
-        nonlocal next_mods
-        if next_mods != None:
-            add_next_mods(token, next_mods)
-            next_mods = None
-        return token
-
-    def add_error(msg, off=-1):
-        add_token(None, idx + off) # error token
-        errors.append(Error(msg, tokens[-1]))
-
-    def add_dyn_include(include_data):
-        if ctxt and ctxt.include_getter and not ctxt.ignore_transforms:
-            include_name, include_args = split_hint_args(include_data, ctxt)
-            include_func = ctxt.include_getter(include_name)
-            if include_func:
-                included_str = include_func(args=include_args, ctxt=ctxt)
-                if included_str != None:
-                    included_tokens, included_errors = tokenize(Source(include_name, included_str), ctxt, all_comments, inner=True)
-                    tokens.extend(included_tokens)
-                    errors.extend(included_errors)
-                    return
-            eprint("warning - ignoring unrecognized dynamic include '%s'" % include_name)
-
-    def add_sublang(token, sublang_data):
-        if ctxt and ctxt.sublang_getter and token.type == TokenType.string:
-            sublang_name, sublang_args = split_hint_args(sublang_data, ctxt)
-
-            sublang_cls = ctxt.sublang_getter(sublang_name)
-            if sublang_cls:
-                add_lang_error = lambda msg: add_error(f"{sublang_name}: {msg}")
-                token.sublang_name = sublang_name
-                token.sublang = sublang_cls(token.parsed_value, args=sublang_args,
-                                            ctxt=ctxt, on_error=add_lang_error)
-            else:
-                eprint("warning - ignoring unrecognized language '%s'" % sublang_name)
-
-    def switch_compiler(compiler_data):
-        nonlocal real_tokens, tokens
-        if real_tokens != None:
-            real_tokens, tokens = None, real_tokens
-
-        if compiler_data != None:
-            if ctxt and ctxt.compiler_getter and not ctxt.ignore_transforms:
-                compiler_name, compiler_args = split_hint_args(compiler_data, ctxt)
-                if compiler_name != "none":
-                    compiler_cls = ctxt.compiler_getter(compiler_name)
-                    if compiler_cls:
-                        curr_compiler = compiler_cls(args=compiler_args, ctxt=ctxt, src=source)
-                        for dyn_include in curr_compiler.get_dynamic_includes():
-                            add_dyn_include(dyn_include)
-                        
-                        compiler_token = add_token(TokenType.compiler, idx, value="`compiler`")
-                        compiler_token.compiler_name = compiler_name
-                        compiler_token.compiler = curr_compiler
-                        compiler_token.compiler_tokens = []
-                        real_tokens, tokens = tokens, compiler_token.compiler_tokens
-
-                    else:
-                        eprint("warning - ignoring unrecognized compiler '%s'" % compiler_name)
-
-    def add_next_mods(token, mods):
-        if mods.comments != None:
-            token.children = mods.comments        
-        if mods.var_kind != None:
-            token.var_kind = mods.var_kind
-        if mods.keys_kind != None:
-            token.keys_kind = mods.keys_kind
-        if mods.is_const != None:
-            token.is_const = mods.is_const
-        if mods.func_kind != None:
-            token.func_kind = mods.func_kind
-        if mods.merge_prev != None:
-            token.merge_prev = mods.merge_prev
-        if mods.force_safe != None:
-            token.force_safe = mods.force_safe
-        if mods.rename != None:
-            token.rename = mods.rename
-        if mods.placeholder != None:
-            token.placeholder_name, token.placeholder_args = split_hint_args(mods.placeholder[0], ctxt)
-            token.placeholder_expr = mods.placeholder[1]
-            if not (token.type == TokenType.string if token.placeholder_expr else token.value == 'do'):
-                eprint(f"invalid usage of $placeholder: {token.placeholder_name}")
-        if mods.sublang != None:
-            add_sublang(token, mods.sublang)
-
-    def process_comment(orig_idx, comment, isblock):
-        hint, hintdata, hintprefix = CommentHint.none, None, ""
-
-        if ctxt and ctxt.hint_comments:
-            proper = False
-            if comment.startswith("$"):
-                comment = comment[1:]
-                hintprefix = "$"
-                proper = True
-
-            if comment.startswith("lint:"):
-                lints = k_hint_split_re.split(str_after_first(comment, ":"))
-                lints = [lint for lint in lints if lint]
-                hint, hintdata = CommentHint.lint, lints
-
-                for lint in lints:
-                    if lint.startswith("func::"):
-                        get_next_mods().func_kind = str_after_first(lint, "::")
-
-            elif comment.startswith("preserve:"):
-                preserves = k_hint_split_re.split(str_after_first(comment, ":"))
-                preserves = [preserve for preserve in preserves if preserve]
-                hint, hintdata = CommentHint.preserve, preserves
-
-            elif comment.startswith(k_keep_prefix):
-                hint = CommentHint.keep
-                
-            elif comment.startswith("dynamic-include:") and proper:
-                add_dyn_include(str_after_first(comment, ":"))
-                hint = CommentHint.auto
-            
-            elif (comment.startswith("def-alias:") and proper) or comment.startswith("deflanguage:"): # deflanguage is deprecated
-                alias_name, alias_value = list_unpack(str_after_first(comment, ":").split("=", 1), 2, "")
-                dest_name, dest_args = split_hint_args(alias_value, ctxt)
-                if ctxt and ctxt.add_custom_alias:
-                    ctxt.add_custom_alias(alias_name.strip(), dest_name, dest_args)
-                hint = CommentHint.auto
-                
-            elif comment.startswith("switch-compiler:") and proper:
-                switch_compiler(str_after_first(comment, ":"))
-                hint = CommentHint.auto
-
-            elif isblock:
-                hint = CommentHint.auto
-                if comment in ("global", "nameof"): # nameof is deprecated
-                    get_next_mods().var_kind = VarKind.global_
-                elif comment in ("member", "memberof"): # memberof is deprecated
-                    get_next_mods().var_kind = VarKind.member
-                elif comment in ("preserve", "string"): # string is deprecated
-                    get_next_mods().var_kind = False
-                elif comment == "global-keys":
-                    get_next_mods().keys_kind = VarKind.global_
-                elif comment == "member-keys":
-                    get_next_mods().keys_kind = VarKind.member
-                elif comment in ("preserve-keys", "string-keys"): # string-keys is deprecated
-                    get_next_mods().keys_kind = False
-                elif comment == "no-merge":
-                    get_next_mods().merge_prev = False
-                elif comment == "const":
-                    get_next_mods().is_const = True
-                elif comment == "non-const":
-                    get_next_mods().is_const = False
-                elif comment == "force-safe":
-                    get_next_mods().force_safe = True
-                elif comment.startswith("language::"):
-                    get_next_mods().sublang = str_after_first(comment, "::")
-                elif comment.startswith("rename::") and not any(ch.isspace() for ch in comment):
-                    get_next_mods().rename = str_after_first(comment, "::")
-                elif comment.startswith("placeholder-expr::") and proper:
-                    get_next_mods().placeholder = (str_after_first(comment, "::"), True)
-                elif comment.startswith("placeholder-stmt::") and proper:
-                    get_next_mods().placeholder = (str_after_first(comment, "::"), False)
-                else:
-                    hint = CommentHint.none
-        
-            if proper and hint == CommentHint.none:
-                eprint(f"unrecognized $-comment '{comment}'")
-            # at some point, warn about improper comments and so on?
-
-        if all_comments or (hint != CommentHint.none and hint != CommentHint.auto):
-            get_next_mods().add_comment(Comment(isblock, hint, hintdata, hintprefix, source, orig_idx, idx, vline))
-        
-    def tokenize_line_comment():
-        nonlocal vline
-        orig_idx = idx
-        while take() not in ('\n', ''): pass
-
-        process_comment(orig_idx - 2, text[orig_idx:idx], isblock=False)
-        vline += 1
-
-    def tokenize_long_brackets(off):
-        nonlocal idx
-        idx += off
-        orig_idx = idx
-
-        if accept('['):
-            pad_idx = idx
-            while accept('='): pass
-            pad = text[pad_idx:idx]
-
-            if accept('['):
-                start_i = idx
-                end_i = text.find(f"]{pad}]", idx)
-                if end_i >= 0:
-                    idx = end_i + len(pad) + 2
-                    return True, orig_idx, start_i, end_i
-                
-                add_error("Unterminated long comment (no longer accepted by pico8)", 0)
-        
-        return False, orig_idx, None, None
-
-    def tokenize_long_comment():
-        nonlocal idx
-        ok, orig_idx, start, end = tokenize_long_brackets(0)
-        if ok:
-            process_comment(orig_idx - 2, text[start:end], isblock=True)
-        else:
-            idx = orig_idx
-        return ok
-
-    def tokenize_number(off):
-        nonlocal idx
-        idx += off
-        orig_idx = idx
-
-        if is_picotron:
-            is_hex = peek() == '0' and peek(1) in ('x', 'X')
-
-            while True:
-                ch = peek()
-                if (is_ident_char(ch, lang) or ch == '.' or
-                        (ch in ('-', '+') and peek(-1) in (('p', 'P') if is_hex else ('e', 'E')))):
-                    idx += 1
-                else:
-                    break
-
-        else:
-            ch = peek()
-            if ch == '0' and peek(1) in ('b', 'B'):
-                idx += 2
-                digits = "01"
-            elif ch == '0' and peek(1) in ('x', 'X'):
-                idx += 2
-                digits = "0123456789aAbBcCdDeEfF"
-            else:
-                digits = "0123456789"
-
-            while True:
-                ch = peek()
-                if ch and ch in digits:
-                    idx += 1
-                elif ch == '.':
-                    idx += 1
-                else:
-                    break
-
-        add_token(TokenType.number, orig_idx)
-
-    def tokenize_ident(off):
-        nonlocal idx
-        idx += off
-        orig_idx = idx
-        
-        while is_ident_char(peek(), lang):
-            idx += 1
-            
-        if text[orig_idx:idx] in keywords:
-            add_token(TokenType.keyword, orig_idx)
-        else:
-            add_token(TokenType.ident, orig_idx)
-
-    def tokenize_string(off):
-        nonlocal idx
-        orig_idx = idx + off
-        idx = orig_idx + 1
-        quote = text[orig_idx]
-
-        while True:
-            ch = take()
-            if ch in ('\n', ''):
-                add_error("Unterminated string", orig_idx - idx)
-                break
-            elif ch == '\\':
-                if accept('z'): # skip line breaks
-                    while peek() and peek() in k_wspace:
-                        take()
-                elif accept('\r'): # windows line break
-                    accept('\n')
-                else:
-                    take() # at least
-            elif ch == quote:
-                break
-
-        add_token(TokenType.string, orig_idx)
-
-    def tokenize_long_string(off):
-        ok, orig_idx, _, _ = tokenize_long_brackets(off)
-        if ok:
-            add_token(TokenType.string, orig_idx)
-        else:
-            add_error("Invalid long brackets")
-    
-    if ctxt and ctxt.default_compiler and not inner:
-        switch_compiler(ctxt.default_compiler)
-
-    while idx < len(text):
-        ch = take()
-
-        if ch in k_wspace: # whitespace
-            if ch == "\n":
-                vline += 1
-
-        elif '0' <= ch <= '9' or (ch == '.' and '0' <= peek() <= '9'): # number
-            tokenize_number(-1)
-
-        elif is_ident_char(ch, lang): # identifier
-            tokenize_ident(-1)
-
-        elif ch in ('"', "'"): # string
-            tokenize_string(-1)
-
-        elif ch == '[' and accept_one_of('=', '['): # long string
-            tokenize_long_string(-2)
-
-        elif ch == '-' and accept('-'): # comment
-            if not tokenize_long_comment():
-                tokenize_line_comment()
-
-        elif ch == '/' and is_pico8 and accept('/'): # c-style comment
-            tokenize_line_comment()
-
-        elif ch in "+-*/\\%&|^<>=~#()[]{};,?@$.:": # punctuation
-            orig_idx = idx - 1
-            if ch in ".:/^<>" and accept(ch):
-                if ch in (".>" if is_pico8 else ".") and accept(ch):
-                    if ch == ">": accept('=')
-                elif ch in "<>" and is_pico8 and accept(">" if ch == "<" else "<"):
-                    accept('=')
-                elif ch in "./^<>":
-                    accept('=')
-            elif ch in "+-*/\\%&|^<>=~":
-                accept('=')
-            add_token(TokenType.punct, orig_idx)
-
-        elif ch == '!' and accept('='): # alt. punctuation
-            add_token(TokenType.punct, idx - 2)
-
-        else:
-            add_error("invalid character")
-    
-    if (next_mods or all_comments) and not inner:
-        add_token(None, idx) # end token, for ending whitespace/comments/etc (TBD: lost if inner...)
-
-    if real_tokens != None:
-        switch_compiler(None)
-    return tokens, errors
-    
-
-def is_count_stop(token):
-    return any(comment.hint == CommentHint.lint and "count::stop" in comment.hintdata for comment in token.children or ())
-
-def has_count_stop(tokens):
-    return any(is_count_stop(token) for token in tokens)
-
-def count_tokens(tokens):
-    count = 0
-    for i, token in enumerate(tokens):
-        if is_count_stop(token):
-            return count
-
-        if token.value in (",", ".", ":", ";", "::", ")", "]", "}", "end", "local", None):
-            continue
-
-        if (token.value in ("-", "~") and i+1 < len(tokens) and tokens[i+1].type == TokenType.number and
-                token.endidx == tokens[i+1].idx and
-                i-1 >= 0 and tokens[i-1].type not in (TokenType.number, TokenType.string, TokenType.ident) and
-                tokens[i-1].value not in (")", "]", "}", ";", "end")):
-            continue
-
-        count += 1
-    return count
-
-def parse_fixnum(origstr):
-    """parse a fixnum from a pico8 string"""
-    str = origstr.lower()
-    
-    neg = bnot = False
-    if str.startswith("-"):
-        str = str[1:]
-        neg = True
-    elif str.startswith("~"):
-        str = str[1:]
-        bnot = True
-
-    digits = "0123456789"
-    if str.startswith("0x"):
-        digits += "abcdef"
-        str = str[2:]
-    elif str.startswith("0b"):
-        digits = "01"
-        str = str[2:]
-    base = len(digits)
-
-    value = 0
-    while str and str[0] in digits:
-        value = (value * base) + digits.index(str[0])
-        str = str[1:]
-
-    if str and str[0] == '.':
-        str = str[1:]
-        dotvalue = 0
-        dotdigits = 0
-        while str and str[0] in digits:
-            dotvalue = (dotvalue * base) + digits.index(str[0])
-            dotdigits += 1
-            str = str[1:]
-        
-        value += dotvalue / (base ** dotdigits)
-    
-    if str:
-        throw(f"Invalid pico8 number: {origstr}")
-
-    fixnum = num_to_fixnum(value)
-    if neg:
-        fixnum = -fixnum & k_fixnum_mask
-    elif bnot:
-        fixnum = ~fixnum & k_fixnum_mask
-
-    return fixnum
-
-def parse_luanum(origstr):
-    str = origstr.lower()
-
-    neg = False
-    if str.startswith("-"):
-        str = str[1:]
-        neg = True
-
-    try:
-        if str.startswith("0x"):
-            if "." in str or "p" in str:
-                try:
-                    value = float.fromhex(str)
-                except OverflowError:
-                    value = float('inf')
-            else:
-                value = num_to_luaint(int(str, base=16))
-        
-        elif str.startswith("0b"):
-            # TODO: recheck this if ever fixed to support exponents?
-            # TODO: recheck this if current 0b2 through 0bf bug stays around, and support it if so?
-            dotpos = str.find(".")
-            if dotpos >= 0:
-                str = str_replace_at(str, dotpos, 1, "")
-            value = int(str, base=2)
-            if dotpos >= 0:
-                try:
-                    value = math.ldexp(value, dotpos - len(str))
-                except OverflowError:
-                    value = float('inf')
-            else:
-                value = num_to_luaint(value)
-            
-        else:
-            if "." in str or "e" in str:
-                value = float(str) # no OverflowError here
-            else:
-                value = int(str)
-                if is_luaint_in_range(value): # intentionally disregarding the possibility of 'neg'
-                    value = num_to_luaint(value)
-                else:
-                    value = float(value)
-    except ValueError:
-        throw(f"Invalid lua number: {origstr}")
-    
-    if neg:
-        value = -value
-    return value
-
-k_char_escapes = {
-    '*': '\1', '#': '\2', '-': '\3', '|': '\4', '+': '\5', '^': '\6',
-    'a': '\a', 'b': '\b', 't': '\t', 'n': '\n', 'v': '\v', 'f': '\f', 'r': '\r',
-    '\\': '\\', '"': '"', "'": "'", '\n': '\n',
-}
-
-def lang_chr(value, lang):
-    if lang == Language.pico8 or value < 0x80:
-        return chr(value)
-    else:
-        return chr(0xdc00 + value) # surrogate escape
-
-def ext_unicode_to_lang_str(value, lang):
-    if value < 0x80:
-        return lang_chr(value, lang)
-    
-    suffix = ""
-    count = 0
-    while value >= (0x40 >> count):
-        suffix = lang_chr(0x80 + (value & 0x3f), lang) + suffix
-        value >>= 6
-        count += 1
-    return lang_chr(((-0x80 >> count) & 0xff) + value, lang) + suffix
-
-def is_hex_str(str):
-    # (python's int also allows whitespace, signs & underscores)
-    return all(ch in string.hexdigits for ch in str)
-
-def parse_char_escape(str, pos, lang):
-    "parse an escape sequence (pos is the position of the '\\', which isn't checked)"
-
-    esc = str_get(str, pos + 1)
-    esc_ch = k_char_escapes.get(esc)
-    if esc_ch:
-        return esc_ch, pos + 2
-
-    elif esc == '\r': # windows line break
-        return "\n", pos + (3 if str_get(str, pos + 2) == '\n' else 2)
-
-    elif esc == 'z':
-        end = pos + 2
-        while str_get(str, end, 'x') in k_wspace:
-            end += 1
-        return "", end
-
-    elif esc == 'x':
-        end = pos + 4
-        hex_esc = str[pos + 2 : end]
-        value = maybe_int(hex_esc, base=16) if is_hex_str(hex_esc) else None
-        if value is None:
-            throw(f"Invalid hex escape: '{hex_esc}' in: '{str}'")
-        return lang_chr(value, lang), end
-
-    elif '0' <= esc <= '9':
-        end = pos + 2
-        while end < pos + 4 and '0' <= str_get(str, end, '') <= '9':
-            end += 1
-        dec_esc = str[pos + 1 : end]
-        value = maybe_int(dec_esc)
-        if value is None or value >= 256:
-            throw(f"Invalid dec escape: '{dec_esc}' in: '{str}'")
-        return lang_chr(value, lang), end
-
-    elif lang == Language.picotron and esc == 'u':
-        check(str_get(str, pos + 2) == "{", f"Invalid unicode escape in: '{str}'")
-        end = str.find("}", pos) + 1
-        check(end > 0, f"Unterminated unicode escape in: '{str}'")
-        uni_esc = str[pos + 3 : end - 1]
-        value = maybe_int(uni_esc, base=16) if is_hex_str(uni_esc) else None
-        if value is None or value >= 0x80000000:
-            throw(f"Invalid uni escape: '{uni_esc}' in: '{str}'")
-        return ext_unicode_to_lang_str(value, lang), end
-
-    else:
-        throw(f"Invalid escape: '{esc}' in: '{str}'")    
-
-def parse_string_literal(str, lang=Language.pico8):
-    """parse a pico8 string from a pico8 string literal"""
-    if str.startswith("["):
-        start = str.index("[", 1) + 1
-        lit = str[start:-start]
-        lit = re.sub(r"\n\r?|\r\n?", "\n", lit)
-        if lit.startswith('\n'):
-            lit = lit[1:]
-        return lit
-
-    else:
-        litparts = []
-        str = str[1:-1]
-        start = 0
-        while start < len(str):
-            end = str.find('\\', start)
-            if end < 0:
-                litparts.append(str[start:])
-                break
-
-            if end > start:
-                litparts.append(str[start:end])
-
-            esc, start = parse_char_escape(str, end, lang)
-            litparts.append(esc)
-                
-        return "".join(litparts)
-
-from pico_parse import Node, VarKind, can_replace_with_unary
-from pico_output import format_fixnum, format_luanum, format_string_literal
-from pico_process import Error, Source
+from utils import *
+from pico_preprocess import k_wspace
+from pico_defs import Language, k_fixnum_mask, num_to_fixnum, num_to_luaint, is_luaint_in_range
+
+keywords = {
+    "and", "break", "do", "else", "elseif", "end", "false", 
+    "for", "function", "goto", "if", "in", "local", "nil", 
+    "not", "or", "repeat", "return", "then", "true", "until",
+    "while"
+}
+
+def split_hint_args(data, ctxt=None):
+    name, args = list_unpack(data.strip().split(" ", 1), 2, "")
+    name, args = name.strip(), args.strip()
+    if ctxt and ctxt.map_aliases:
+        name, args = ctxt.map_aliases(name, args)
+    return name, args
+
+class StopTraverse(BaseException):
+    pass
+
+k_skip_children = True # value returnable from traverse's pre-function
+
+class KeepCommentFlags(Bitmask):
+    first = last = ...
+
+class TokenNodeBase:
+    """Baseclass for syntax Tokens, syntax Nodes, and Comments.
+    The syntax tree is comprised of these and can be traversed via traverse_nodes or traverse_tokens"""
+
+    def __init__(m):
+        m.parent, m.children = None, ()
+
+    def __repr__(m):
+        return "%s(type=%s)" % (typename(m), m.type)
+
+    def __str__(m):
+        reprlist = []
+        for key, val in m.__dict__.items():
+            if key in ("parent", "children", "idx", "endidx", "vline", "lang", "modified", "source",
+                       "scope", "extra_i", "extra_children", "stmts", "globals", "members"):
+                continue
+            reprlist.append("%s=%r" % (key, val))
+        return "%s(%s)" % (typename(m), ", ".join(reprlist))
+    
+    @property
+    def source_text(m):
+        if m.source and m.idx != None and m.endidx != None:
+            return m.source.text[m.idx:m.endidx]
+        else:
+            return None
+    
+    def find_parent(m, type):
+        parent = m.parent
+        while parent and parent.type != type:
+            parent = parent.parent
+        return parent
+
+    def _sibling(m, delta):
+        parent = m.parent
+        if parent is None:
+            return None
+        i = parent.children.index(m) + delta
+        return list_get(parent.children, i)
+
+    def next_sibling(m): return m._sibling(1)
+    def prev_sibling(m): return m._sibling(-1)
+
+    def _adjacent(m, delta):
+        while m:
+            sib = m._sibling(delta)
+            if sib:
+                return sib
+            m = m.parent
+        return None
+
+    def _find_token(m, delta, adjacent=False):
+        i = 0 if delta > 0 else -1
+        if adjacent:
+            m = m._adjacent(delta)
+        while isinstance(m, Node):
+            if m.children:
+                m = m.children[i]
+            else:
+                m = m._adjacent(delta)
+        return m if m else Token.none
+
+    def next_token(m): return m._find_token(1, adjacent=True)
+    def prev_token(m): return m._find_token(-1, adjacent=True)
+
+    def first_token(m): return m._find_token(1)
+    def last_token(m): return m._find_token(-1)
+
+    def find_or_create_token(m, child_i=0, last=False):
+        for_child = child_i < len(m.children) and not last
+        if for_child:
+            m = m.children[child_i]
+        token = m.first_token() if for_child else m.next_token()
+        is_after = True
+        if token is Token.none:
+            token = m.next_token() if for_child else m.last_token()
+            is_after = for_child
+            if token is Token.none:
+                token = m.prev_token()
+                is_after = False
+                if token is Token.none:
+                    token = Token.dummy(m.source)
+                    # we should only reach here when m is an empty node of some kind
+                    m.append_existing(token)
+        return token, is_after
+
+    def traverse_nodes(m, pre=None, post=None, tokens=None, extra=False):
+        skip = pre(m) if pre else None
+        if not skip:
+            for child in m.children:
+                if isinstance(child, Node):
+                    child.traverse_nodes(pre, post, tokens, extra)
+                elif tokens:
+                    tokens(child)
+            if extra and hasattr(m, "extra_children"):
+                for child in m.extra_children:
+                    child.traverse_nodes(pre, post, tokens, extra)
+        if post: post(m)
+
+    def traverse_tokens(m, visit):
+        if isinstance(m, Token):
+            visit(m)
+        else:
+            for child in m.children:
+                if isinstance(child, Node):
+                    child.traverse_tokens(visit)
+                else:
+                    visit(child)
+    
+    def traverse_parents(m, visit):
+        parent = m.parent
+        while parent:
+            visit(parent)
+            parent = parent.parent
+
+    def collect_comments(m, irrelevant=False, flags=None):
+        comments = []
+        def visit(token):
+            nonlocal comments
+            comments += token.children
+        
+        if isinstance(flags, KeepCommentFlags):
+            first_token = m.first_token() if flags.first else None
+            last_token = m.last_token() if flags.last else None
+            if first_token:
+                visit(first_token)
+            if last_token and last_token != first_token:
+                visit(last_token)
+        else:
+            m.traverse_tokens(visit)
+
+        if irrelevant:
+            comments = [c for c in comments if c.hint != CommentHint.auto]
+        return comments
+
+    def add_extra_child(m, child):
+        if not hasattr(m, "extra_children"):
+            m.extra_children = []
+        child.parent = m
+        child.extra_i = len(m.extra_children)
+        m.extra_children.append(child)
+    
+    def is_extra_child(m):
+        return hasattr(m, "extra_i")
+    
+    def move(m): # create a "destructive" copy - old object is no longer usable unless replaced
+        cpy = copy(m)
+        for child in cpy.children:
+            child.parent = cpy
+        m.erase()
+        return cpy
+
+    def copy(m):
+        cpy = copy(m)
+        cpy.children = [child.copy() for child in m.children]
+        for child in cpy.children:
+            child.parent = cpy
+        for key, val in cpy.__dict__.items():
+            idx = list_find(m.children, val)
+            if idx >= 0:
+                cpy.__dict__[key] = cpy.children[idx]
+        return cpy
+
+class TokenType(Enum):
+    number = string = ident = keyword = punct = ...
+    compiler = ... # special
+
+class Token(TokenNodeBase):
+    """A pico8 token, at 'source'.text['idx':'endidx'] (which is equal to its 'value'). Its 'type' is a TokenType.
+    For number/string tokens, the actual value is 'parsed_value'
+    Its children are the comments *before* it, if any."""
+
+    def __init__(m, type, value, source, idx, endidx, vline, lang, modified=False):
+        super().__init__()
+        m.type, m.value, m.source, m.idx, m.endidx, m.vline, m.lang, m.modified = type, value, source, idx, endidx, vline, lang, modified
+    
+    def check(m, expected):
+        if isinstance(expected, tuple):
+            assert m.value in expected
+        else:
+            assert m.value == expected
+
+    def modify(m, value, expected=None):
+        if expected != None:
+            m.check(expected)
+        m.value = value
+        m.modified = True
+        lazy_property.clear(m, "parsed_value")
+    
+    def erase(m, expected=None):
+        if expected != None:
+            m.check(expected)
+        m.type, m.value, m.modified = None, None, True
+
+    def add_comments(m, comments, first=False):
+        if m.children == ():
+            m.children = []
+        if first:
+            m.children[0:0] = comments
+        else:
+            m.children += comments
+    
+    def remove_comments(m):
+        m.children = ()
+
+    @lazy_property
+    def parsed_value(m):
+        if m.type == TokenType.number:
+            if m.lang == Language.picotron:
+                return parse_luanum(m.value)
+            else:
+                return parse_fixnum(m.value)
+        elif m.type == TokenType.string:
+            return parse_string_literal(m.value, m.lang)
+        else:
+            return None
+
+    @classmethod
+    def dummy(cls, source):
+        idx = len(source.text) if source else 0
+        vline = sys.maxsize if source else 0
+        return cls(None, None, source, idx, idx, vline, None)
+
+    @classmethod
+    def synthetic(cls, type, value, other, append=False, prepend=False):
+        idx = other.endidx if append else other.idx
+        endidx = other.idx if prepend else other.endidx
+        return cls(type, value, other.source, idx, endidx, other.vline, other.lang, modified=True)
+
+Token.none = Token.dummy(None)
+
+class ConstToken(Token):
+    def __init__(m, type, parsed_value, other):
+        super().__init__(type, None, other.source, other.idx, other.endidx, other.vline, other.lang, modified=True)
+        m.parsed_value = parsed_value
+        lazy_property.clear(m, "value")
+
+    @lazy_property
+    def value(m): # used during going over chars for rename (tsk...) and for output when not minify-tokens
+                  # (but not used for output under minify-tokens)
+        if isinstance(m.parsed_value, (int, float)):
+            allow_unary = can_replace_with_unary(m.parent) if m.parent else True
+            format_num = format_fixnum if m.lang == Language.pico8 else format_luanum
+            return format_num(m.parsed_value, sign=None if allow_unary else "")
+        else:
+            return format_string_literal(m.parsed_value, long=False)
+
+    @post_property_change
+    def parent(m, old, new):
+        if lazy_property.is_set(m, "parsed_value"): # else, was already replaced with an explicit value
+            lazy_property.clear(m, "value")
+
+class CommentHint(Enum):
+    none = auto = preserve = lint = keep = ...
+
+k_keep_prefix = "keep:"
+
+class Comment(TokenNodeBase):
+    """A pico8 comment, optionally holding some kind of hint"""
+
+    def __init__(m, isblock, hint, hintdata=None, hintprefix="", source=None, idx=None, endidx=None, vline=None, modified=False):
+        super().__init__()
+        m.isblock, m.hint, m.hintdata, m.hintprefix = isblock, hint, hintdata, hintprefix
+        m.source, m.idx, m.endidx, m.vline, m.modified = source, idx, endidx, vline, modified
+
+    def modify(m, value):
+        m.value = value
+        m.modified = True
+
+    @property
+    def value(m):
+        return m.source_text
+
+def is_ident_char(ch, lang=Language.pico8):
+    return ('0' <= ch <= '9' or 'a' <= ch <= 'z' or 'A' <= ch <= 'Z' or ch == '_' or
+            (lang == Language.pico8 and (ch in ('\x1e', '\x1f') or ch >= '\x80')))
+
+def is_identifier(str, lang=Language.pico8):
+    return str and all(is_ident_char(ch, lang) for ch in str) and not str[:1].isdigit() and str not in keywords
+    
+k_identifier_split_re = r"([0-9A-Za-z_\x1e\x1f\x80-\xff]+)"
+
+k_hint_split_re = re.compile(r"[\s,]+")
+
+class NextTokenMods:
+    def __init__(m):
+        m.var_kind = m.keys_kind = m.is_const = m.func_kind = m.merge_prev = m.force_safe = m.sublang = m.rename = m.placeholder = None
+        m.comments = None
+        
+    def add_comment(m, cmt):
+        if m.comments is None:
+            m.comments = []
+        m.comments.append(cmt)
+
+def tokenize(source, ctxt=None, all_comments=False, lang=None, inner=False):
+    text = source.text
+    idx = 0
+    vline = 0
+    tokens = []
+    errors = []
+    real_tokens = None
+    next_mods = None
+    if lang is None:
+        lang = ctxt.lang if ctxt else Language.pico8
+    
+    is_pico8 = lang == Language.pico8
+    is_picotron = lang == Language.picotron
+
+    def peek(off=0):
+        i = idx + off
+        return text[i] if 0 <= i < len(text) else ''
+
+    def take():
+        nonlocal idx
+        ch = peek()
+        idx += 1
+        return ch
+
+    def accept(ch,):
+        nonlocal idx
+        if peek() == ch:
+            idx += 1
+            return True
+        return False
+
+    def accept_one_of(*chs):
+        nonlocal idx
+        if peek() in chs:
+            idx += 1
+            return True
+        return False
+
+    def get_next_mods():
+        nonlocal next_mods
+        if next_mods is None:
+            next_mods = NextTokenMods()
+        return next_mods
+
+    def add_token(type, start, end_off=0, value=None):
+        end = idx + end_off
+        if value is None and type is not None: # (dummy tokens have type==value==None)
+            value = text[start:end]
+        token = Token(type, value, source, start, end, vline, lang)
+        tokens.append(token)
+        
+        nonlocal next_mods
+        if next_mods != None:
+            add_next_mods(token, next_mods)
+            next_mods = None
+        return token
+
+    def add_error(msg, off=-1):
+        add_token(None, idx + off) # error token
+        errors.append(Error(msg, tokens[-1]))
+
+    def add_dyn_include(include_data):
+        if ctxt and ctxt.include_getter and not ctxt.ignore_transforms:
+            include_name, include_args = split_hint_args(include_data, ctxt)
+            include_func = ctxt.include_getter(include_name)
+            if include_func:
+                included_str = include_func(args=include_args, ctxt=ctxt)
+                if included_str != None:
+                    included_tokens, included_errors = tokenize(Source(include_name, included_str), ctxt, all_comments, inner=True)
+                    tokens.extend(included_tokens)
+                    errors.extend(included_errors)
+                    return
+            eprint("warning - ignoring unrecognized dynamic include '%s'" % include_name)
+
+    def add_sublang(token, sublang_data):
+        if ctxt and ctxt.sublang_getter and token.type == TokenType.string:
+            sublang_name, sublang_args = split_hint_args(sublang_data, ctxt)
+
+            sublang_cls = ctxt.sublang_getter(sublang_name)
+            if sublang_cls:
+                add_lang_error = lambda msg: add_error(f"{sublang_name}: {msg}")
+                token.sublang_name = sublang_name
+                token.sublang = sublang_cls(token.parsed_value, args=sublang_args,
+                                            ctxt=ctxt, on_error=add_lang_error)
+            else:
+                eprint("warning - ignoring unrecognized language '%s'" % sublang_name)
+
+    def switch_compiler(compiler_data):
+        nonlocal real_tokens, tokens
+        if real_tokens != None:
+            real_tokens, tokens = None, real_tokens
+
+        if compiler_data != None:
+            if ctxt and ctxt.compiler_getter and not ctxt.ignore_transforms:
+                compiler_name, compiler_args = split_hint_args(compiler_data, ctxt)
+                if compiler_name != "none":
+                    compiler_cls = ctxt.compiler_getter(compiler_name)
+                    if compiler_cls:
+                        curr_compiler = compiler_cls(args=compiler_args, ctxt=ctxt, src=source)
+                        for dyn_include in curr_compiler.get_dynamic_includes():
+                            add_dyn_include(dyn_include)
+                        
+                        compiler_token = add_token(TokenType.compiler, idx, value="`compiler`")
+                        compiler_token.compiler_name = compiler_name
+                        compiler_token.compiler = curr_compiler
+                        compiler_token.compiler_tokens = []
+                        real_tokens, tokens = tokens, compiler_token.compiler_tokens
+
+                    else:
+                        eprint("warning - ignoring unrecognized compiler '%s'" % compiler_name)
+
+    def add_next_mods(token, mods):
+        if mods.comments != None:
+            token.children = mods.comments        
+        if mods.var_kind != None:
+            token.var_kind = mods.var_kind
+        if mods.keys_kind != None:
+            token.keys_kind = mods.keys_kind
+        if mods.is_const != None:
+            token.is_const = mods.is_const
+        if mods.func_kind != None:
+            token.func_kind = mods.func_kind
+        if mods.merge_prev != None:
+            token.merge_prev = mods.merge_prev
+        if mods.force_safe != None:
+            token.force_safe = mods.force_safe
+        if mods.rename != None:
+            token.rename = mods.rename
+        if mods.placeholder != None:
+            token.placeholder_name, token.placeholder_args = split_hint_args(mods.placeholder[0], ctxt)
+            token.placeholder_expr = mods.placeholder[1]
+            if not (token.type == TokenType.string if token.placeholder_expr else token.value == 'do'):
+                eprint(f"invalid usage of $placeholder: {token.placeholder_name}")
+        if mods.sublang != None:
+            add_sublang(token, mods.sublang)
+
+    def process_comment(orig_idx, comment, isblock):
+        hint, hintdata, hintprefix = CommentHint.none, None, ""
+
+        if ctxt and ctxt.hint_comments:
+            proper = False
+            if comment.startswith("$"):
+                comment = comment[1:]
+                hintprefix = "$"
+                proper = True
+
+            if comment.startswith("lint:"):
+                lints = k_hint_split_re.split(str_after_first(comment, ":"))
+                lints = [lint for lint in lints if lint]
+                hint, hintdata = CommentHint.lint, lints
+
+                for lint in lints:
+                    if lint.startswith("func::"):
+                        get_next_mods().func_kind = str_after_first(lint, "::")
+
+            elif comment.startswith("preserve:"):
+                preserves = k_hint_split_re.split(str_after_first(comment, ":"))
+                preserves = [preserve for preserve in preserves if preserve]
+                hint, hintdata = CommentHint.preserve, preserves
+
+            elif comment.startswith(k_keep_prefix):
+                hint = CommentHint.keep
+                
+            elif comment.startswith("dynamic-include:") and proper:
+                add_dyn_include(str_after_first(comment, ":"))
+                hint = CommentHint.auto
+            
+            elif (comment.startswith("def-alias:") and proper) or comment.startswith("deflanguage:"): # deflanguage is deprecated
+                alias_name, alias_value = list_unpack(str_after_first(comment, ":").split("=", 1), 2, "")
+                dest_name, dest_args = split_hint_args(alias_value, ctxt)
+                if ctxt and ctxt.add_custom_alias:
+                    ctxt.add_custom_alias(alias_name.strip(), dest_name, dest_args)
+                hint = CommentHint.auto
+                
+            elif comment.startswith("switch-compiler:") and proper:
+                switch_compiler(str_after_first(comment, ":"))
+                hint = CommentHint.auto
+
+            elif isblock:
+                hint = CommentHint.auto
+                if comment in ("global", "nameof"): # nameof is deprecated
+                    get_next_mods().var_kind = VarKind.global_
+                elif comment in ("member", "memberof"): # memberof is deprecated
+                    get_next_mods().var_kind = VarKind.member
+                elif comment in ("preserve", "string"): # string is deprecated
+                    get_next_mods().var_kind = False
+                elif comment == "global-keys":
+                    get_next_mods().keys_kind = VarKind.global_
+                elif comment == "member-keys":
+                    get_next_mods().keys_kind = VarKind.member
+                elif comment in ("preserve-keys", "string-keys"): # string-keys is deprecated
+                    get_next_mods().keys_kind = False
+                elif comment == "no-merge":
+                    get_next_mods().merge_prev = False
+                elif comment == "const":
+                    get_next_mods().is_const = True
+                elif comment == "non-const":
+                    get_next_mods().is_const = False
+                elif comment == "force-safe":
+                    get_next_mods().force_safe = True
+                elif comment.startswith("language::"):
+                    get_next_mods().sublang = str_after_first(comment, "::")
+                elif comment.startswith("rename::") and not any(ch.isspace() for ch in comment):
+                    get_next_mods().rename = str_after_first(comment, "::")
+                elif comment.startswith("placeholder-expr::") and proper:
+                    get_next_mods().placeholder = (str_after_first(comment, "::"), True)
+                elif comment.startswith("placeholder-stmt::") and proper:
+                    get_next_mods().placeholder = (str_after_first(comment, "::"), False)
+                else:
+                    hint = CommentHint.none
+        
+            if proper and hint == CommentHint.none:
+                eprint(f"unrecognized $-comment '{comment}'")
+            # at some point, warn about improper comments and so on?
+
+        if all_comments or (hint != CommentHint.none and hint != CommentHint.auto):
+            get_next_mods().add_comment(Comment(isblock, hint, hintdata, hintprefix, source, orig_idx, idx, vline))
+        
+    def tokenize_line_comment():
+        nonlocal vline
+        orig_idx = idx
+        while take() not in ('\n', ''): pass
+
+        process_comment(orig_idx - 2, text[orig_idx:idx], isblock=False)
+        vline += 1
+
+    def tokenize_long_brackets(off):
+        nonlocal idx
+        idx += off
+        orig_idx = idx
+
+        if accept('['):
+            pad_idx = idx
+            while accept('='): pass
+            pad = text[pad_idx:idx]
+
+            if accept('['):
+                start_i = idx
+                end_i = text.find(f"]{pad}]", idx)
+                if end_i >= 0:
+                    idx = end_i + len(pad) + 2
+                    return True, orig_idx, start_i, end_i
+                
+                add_error("Unterminated long comment (no longer accepted by pico8)", 0)
+        
+        return False, orig_idx, None, None
+
+    def tokenize_long_comment():
+        nonlocal idx
+        ok, orig_idx, start, end = tokenize_long_brackets(0)
+        if ok:
+            process_comment(orig_idx - 2, text[start:end], isblock=True)
+        else:
+            idx = orig_idx
+        return ok
+
+    def tokenize_number(off):
+        nonlocal idx
+        idx += off
+        orig_idx = idx
+
+        if is_picotron:
+            is_hex = peek() == '0' and peek(1) in ('x', 'X')
+
+            while True:
+                ch = peek()
+                if (is_ident_char(ch, lang) or ch == '.' or
+                        (ch in ('-', '+') and peek(-1) in (('p', 'P') if is_hex else ('e', 'E')))):
+                    idx += 1
+                else:
+                    break
+
+        else:
+            ch = peek()
+            if ch == '0' and peek(1) in ('b', 'B'):
+                idx += 2
+                digits = "01"
+            elif ch == '0' and peek(1) in ('x', 'X'):
+                idx += 2
+                digits = "0123456789aAbBcCdDeEfF"
+            else:
+                digits = "0123456789"
+
+            while True:
+                ch = peek()
+                if ch and ch in digits:
+                    idx += 1
+                elif ch == '.':
+                    idx += 1
+                else:
+                    break
+
+        add_token(TokenType.number, orig_idx)
+
+    def tokenize_ident(off):
+        nonlocal idx
+        idx += off
+        orig_idx = idx
+        
+        while is_ident_char(peek(), lang):
+            idx += 1
+            
+        if text[orig_idx:idx] in keywords:
+            add_token(TokenType.keyword, orig_idx)
+        else:
+            add_token(TokenType.ident, orig_idx)
+
+    def tokenize_string(off):
+        nonlocal idx
+        orig_idx = idx + off
+        idx = orig_idx + 1
+        quote = text[orig_idx]
+
+        while True:
+            ch = take()
+            if ch in ('\n', ''):
+                add_error("Unterminated string", orig_idx - idx)
+                break
+            elif ch == '\\':
+                if accept('z'): # skip line breaks
+                    while peek() and peek() in k_wspace:
+                        take()
+                elif accept('\r'): # windows line break
+                    accept('\n')
+                else:
+                    take() # at least
+            elif ch == quote:
+                break
+
+        add_token(TokenType.string, orig_idx)
+
+    def tokenize_long_string(off):
+        ok, orig_idx, _, _ = tokenize_long_brackets(off)
+        if ok:
+            add_token(TokenType.string, orig_idx)
+        else:
+            add_error("Invalid long brackets")
+    
+    if ctxt and ctxt.default_compiler and not inner:
+        switch_compiler(ctxt.default_compiler)
+
+    while idx < len(text):
+        ch = take()
+
+        if ch in k_wspace: # whitespace
+            if ch == "\n":
+                vline += 1
+
+        elif '0' <= ch <= '9' or (ch == '.' and '0' <= peek() <= '9'): # number
+            tokenize_number(-1)
+
+        elif is_ident_char(ch, lang): # identifier
+            tokenize_ident(-1)
+
+        elif ch in ('"', "'"): # string
+            tokenize_string(-1)
+
+        elif ch == '[' and accept_one_of('=', '['): # long string
+            tokenize_long_string(-2)
+
+        elif ch == '-' and accept('-'): # comment
+            if not tokenize_long_comment():
+                tokenize_line_comment()
+
+        elif ch == '/' and is_pico8 and accept('/'): # c-style comment
+            tokenize_line_comment()
+
+        elif ch in "+-*/\\%&|^<>=~#()[]{};,?@$.:": # punctuation
+            orig_idx = idx - 1
+            if ch in ".:/^<>" and accept(ch):
+                if ch in (".>" if is_pico8 else ".") and accept(ch):
+                    if ch == ">": accept('=')
+                elif ch in "<>" and is_pico8 and accept(">" if ch == "<" else "<"):
+                    accept('=')
+                elif ch in "./^<>":
+                    accept('=')
+            elif ch in "+-*/\\%&|^<>=~":
+                accept('=')
+            add_token(TokenType.punct, orig_idx)
+
+        elif ch == '!' and accept('='): # alt. punctuation
+            add_token(TokenType.punct, idx - 2)
+
+        else:
+            add_error("invalid character")
+    
+    if (next_mods or all_comments) and not inner:
+        add_token(None, idx) # end token, for ending whitespace/comments/etc (TBD: lost if inner...)
+
+    if real_tokens != None:
+        switch_compiler(None)
+    return tokens, errors
+    
+
+def is_count_stop(token):
+    return any(comment.hint == CommentHint.lint and "count::stop" in comment.hintdata for comment in token.children or ())
+
+def has_count_stop(tokens):
+    return any(is_count_stop(token) for token in tokens)
+
+def count_tokens(tokens):
+    count = 0
+    for i, token in enumerate(tokens):
+        if is_count_stop(token):
+            return count
+
+        if token.value in (",", ".", ":", ";", "::", ")", "]", "}", "end", "local", None):
+            continue
+
+        if (token.value in ("-", "~") and i+1 < len(tokens) and tokens[i+1].type == TokenType.number and
+                token.endidx == tokens[i+1].idx and
+                i-1 >= 0 and tokens[i-1].type not in (TokenType.number, TokenType.string, TokenType.ident) and
+                tokens[i-1].value not in (")", "]", "}", ";", "end")):
+            continue
+
+        count += 1
+    return count
+
+def parse_fixnum(origstr):
+    """parse a fixnum from a pico8 string"""
+    str = origstr.lower()
+    
+    neg = bnot = False
+    if str.startswith("-"):
+        str = str[1:]
+        neg = True
+    elif str.startswith("~"):
+        str = str[1:]
+        bnot = True
+
+    digits = "0123456789"
+    if str.startswith("0x"):
+        digits += "abcdef"
+        str = str[2:]
+    elif str.startswith("0b"):
+        digits = "01"
+        str = str[2:]
+    base = len(digits)
+
+    value = 0
+    while str and str[0] in digits:
+        value = (value * base) + digits.index(str[0])
+        str = str[1:]
+
+    if str and str[0] == '.':
+        str = str[1:]
+        dotvalue = 0
+        dotdigits = 0
+        while str and str[0] in digits:
+            dotvalue = (dotvalue * base) + digits.index(str[0])
+            dotdigits += 1
+            str = str[1:]
+        
+        value += dotvalue / (base ** dotdigits)
+    
+    if str:
+        throw(f"Invalid pico8 number: {origstr}")
+
+    fixnum = num_to_fixnum(value)
+    if neg:
+        fixnum = -fixnum & k_fixnum_mask
+    elif bnot:
+        fixnum = ~fixnum & k_fixnum_mask
+
+    return fixnum
+
+def parse_luanum(origstr):
+    str = origstr.lower()
+
+    neg = False
+    if str.startswith("-"):
+        str = str[1:]
+        neg = True
+
+    try:
+        if str.startswith("0x"):
+            if "." in str or "p" in str:
+                try:
+                    value = float.fromhex(str)
+                except OverflowError:
+                    value = float('inf')
+            else:
+                value = num_to_luaint(int(str, base=16))
+        
+        elif str.startswith("0b"):
+            # TODO: recheck this if ever fixed to support exponents?
+            # TODO: recheck this if current 0b2 through 0bf bug stays around, and support it if so?
+            dotpos = str.find(".")
+            if dotpos >= 0:
+                str = str_replace_at(str, dotpos, 1, "")
+            value = int(str, base=2)
+            if dotpos >= 0:
+                try:
+                    value = math.ldexp(value, dotpos - len(str))
+                except OverflowError:
+                    value = float('inf')
+            else:
+                value = num_to_luaint(value)
+            
+        else:
+            if "." in str or "e" in str:
+                value = float(str) # no OverflowError here
+            else:
+                value = int(str)
+                if is_luaint_in_range(value): # intentionally disregarding the possibility of 'neg'
+                    value = num_to_luaint(value)
+                else:
+                    value = float(value)
+    except ValueError:
+        throw(f"Invalid lua number: {origstr}")
+    
+    if neg:
+        value = -value
+    return value
+
+k_char_escapes = {
+    '*': '\1', '#': '\2', '-': '\3', '|': '\4', '+': '\5', '^': '\6',
+    'a': '\a', 'b': '\b', 't': '\t', 'n': '\n', 'v': '\v', 'f': '\f', 'r': '\r',
+    '\\': '\\', '"': '"', "'": "'", '\n': '\n',
+}
+
+def lang_chr(value, lang):
+    if lang == Language.pico8 or value < 0x80:
+        return chr(value)
+    else:
+        return chr(0xdc00 + value) # surrogate escape
+
+def ext_unicode_to_lang_str(value, lang):
+    if value < 0x80:
+        return lang_chr(value, lang)
+    
+    suffix = ""
+    count = 0
+    while value >= (0x40 >> count):
+        suffix = lang_chr(0x80 + (value & 0x3f), lang) + suffix
+        value >>= 6
+        count += 1
+    return lang_chr(((-0x80 >> count) & 0xff) + value, lang) + suffix
+
+def is_hex_str(str):
+    # (python's int also allows whitespace, signs & underscores)
+    return all(ch in string.hexdigits for ch in str)
+
+def parse_char_escape(str, pos, lang):
+    "parse an escape sequence (pos is the position of the '\\', which isn't checked)"
+
+    esc = str_get(str, pos + 1)
+    esc_ch = k_char_escapes.get(esc)
+    if esc_ch:
+        return esc_ch, pos + 2
+
+    elif esc == '\r': # windows line break
+        return "\n", pos + (3 if str_get(str, pos + 2) == '\n' else 2)
+
+    elif esc == 'z':
+        end = pos + 2
+        while str_get(str, end, 'x') in k_wspace:
+            end += 1
+        return "", end
+
+    elif esc == 'x':
+        end = pos + 4
+        hex_esc = str[pos + 2 : end]
+        value = maybe_int(hex_esc, base=16) if is_hex_str(hex_esc) else None
+        if value is None:
+            throw(f"Invalid hex escape: '{hex_esc}' in: '{str}'")
+        return lang_chr(value, lang), end
+
+    elif '0' <= esc <= '9':
+        end = pos + 2
+        while end < pos + 4 and '0' <= str_get(str, end, '') <= '9':
+            end += 1
+        dec_esc = str[pos + 1 : end]
+        value = maybe_int(dec_esc)
+        if value is None or value >= 256:
+            throw(f"Invalid dec escape: '{dec_esc}' in: '{str}'")
+        return lang_chr(value, lang), end
+
+    elif lang == Language.picotron and esc == 'u':
+        check(str_get(str, pos + 2) == "{", f"Invalid unicode escape in: '{str}'")
+        end = str.find("}", pos) + 1
+        check(end > 0, f"Unterminated unicode escape in: '{str}'")
+        uni_esc = str[pos + 3 : end - 1]
+        value = maybe_int(uni_esc, base=16) if is_hex_str(uni_esc) else None
+        if value is None or value >= 0x80000000:
+            throw(f"Invalid uni escape: '{uni_esc}' in: '{str}'")
+        return ext_unicode_to_lang_str(value, lang), end
+
+    else:
+        throw(f"Invalid escape: '{esc}' in: '{str}'")    
+
+def parse_string_literal(str, lang=Language.pico8):
+    """parse a pico8 string from a pico8 string literal"""
+    if str.startswith("["):
+        start = str.index("[", 1) + 1
+        lit = str[start:-start]
+        lit = re.sub(r"\n\r?|\r\n?", "\n", lit)
+        if lit.startswith('\n'):
+            lit = lit[1:]
+        return lit
+
+    else:
+        litparts = []
+        str = str[1:-1]
+        start = 0
+        while start < len(str):
+            end = str.find('\\', start)
+            if end < 0:
+                litparts.append(str[start:])
+                break
+
+            if end > start:
+                litparts.append(str[start:end])
+
+            esc, start = parse_char_escape(str, end, lang)
+            litparts.append(esc)
+                
+        return "".join(litparts)
+
+from pico_parse import Node, VarKind, can_replace_with_unary
+from pico_output import format_fixnum, format_luanum, format_string_literal
+from pico_process import Error, Source
-- 
2.43.0


From f87c31dc0a1c0686191ee4f704cd5dce0c139816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:49:08 +0000
Subject: [PATCH 82/93] fix: keep dynamically included code out of a preceding
 shorthand

---
 pico_tokenize.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pico_tokenize.py b/pico_tokenize.py
index 1415069..60ad7e4 100644
--- a/pico_tokenize.py
+++ b/pico_tokenize.py
@@ -378,6 +378,16 @@ def tokenize(source, ctxt=None, all_comments=False, lang=None, inner=False):
         add_token(None, idx + off) # error token
         errors.append(Error(msg, tokens[-1]))
 
+    def add_included_lines(included_tokens):
+        # the included tokens begin at the current line, and the following ones end up after them
+        nonlocal vline
+        start_vline = vline
+        for token in included_tokens:
+            token.vline += start_vline
+            for comment in token.children or ():
+                comment.vline += start_vline
+            vline = token.vline
+
     def add_dyn_include(include_data):
         if ctxt and ctxt.include_getter and not ctxt.ignore_transforms:
             include_name, include_args = split_hint_args(include_data, ctxt)
@@ -386,6 +396,7 @@ def tokenize(source, ctxt=None, all_comments=False, lang=None, inner=False):
                 included_str = include_func(args=include_args, ctxt=ctxt)
                 if included_str != None:
                     included_tokens, included_errors = tokenize(Source(include_name, included_str), ctxt, all_comments, inner=True)
+                    add_included_lines(included_tokens)
                     tokens.extend(included_tokens)
                     errors.extend(included_errors)
                     return
-- 
2.43.0


From cd5dd52b694da9a9b976bd6803d9f26c1fbb2cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:49:08 +0000
Subject: [PATCH 83/93] fix: don't fold strings whose value is yet to change
 due to a hint

---
 pico_constfold.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pico_constfold.py b/pico_constfold.py
index dedc93d..7cadd9e 100644
--- a/pico_constfold.py
+++ b/pico_constfold.py
@@ -470,6 +470,8 @@ def const_from_token(token):
 def get_const(node):
     if node.type == NodeType.const:
         token = node.token
+        if hasattr(node, "extra_children") or hasattr(token, "placeholder_name"):
+            return None # the value is yet to be renamed or replaced (due to a hint)
         constval = const_from_token(token)
         assert constval, "unexpected const token: %s" % token
         return constval
-- 
2.43.0


From c3ea55dcebcb3e28c663ab8d97f40ab281dec629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:49:08 +0000
Subject: [PATCH 84/93] fix: apply rename hints within sub-languages as well

---
 pico_rename.py | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/pico_rename.py b/pico_rename.py
index f0539b2..6234373 100644
--- a/pico_rename.py
+++ b/pico_rename.py
@@ -322,16 +322,26 @@ def rename_tokens(ctxt, root, rename_opts):
                             break
                         
         elif node.type == NodeType.sublang:
+            hinted_names = []
             for name, count in node.sublang.get_global_usages().items():
                 if is_identifier(name, ctxt.lang):
-                    if is_preserved_global(name):
+                    var = root.globals.get(name)
+                    if var and var.rename:
+                        renamed_vars[var] = True
+                        global_excludes.add(var.rename)
+                        hinted_names.append(name)
+                    elif is_preserved_global(name):
                         global_excludes.add(name)
                     else:
                         global_uses[name] += count
 
             for name, count in node.sublang.get_member_usages().items():
                 if is_identifier(name, ctxt.lang):
-                    if name in preserved_members or (members_as_globals and is_preserved_global(name)):
+                    var = root.members.get(name)
+                    if var and var.rename:
+                        renamed_vars[var] = True
+                        member_excludes.add(var.rename)
+                    elif name in preserved_members or (members_as_globals and is_preserved_global(name)):
                         member_excludes.add(name)
                         if members_as_globals:
                             global_excludes.add(name)
@@ -343,6 +353,9 @@ def rename_tokens(ctxt, root, rename_opts):
             for var, count in node.sublang.get_local_usages().items():
                 if not var.implicit:
                     local_uses[var] += count
+                    for name in hinted_names: # (the uses of hinted globals are listed under their new name)
+                        if name in var.scope.used_globals:
+                            var.scope.used_globals.add(root.globals[name].rename)
 
     root.traverse_nodes(collect_idents_pre, extra=True)
 
@@ -483,6 +496,8 @@ def rename_tokens(ctxt, root, rename_opts):
 
     # write the new names into the syntax tree
 
+    hinted_renames = {kind: {var.name: var.rename for var in renamed_vars if var.kind == kind} for kind in (VarKind.global_, VarKind.member)}
+
     def update_idents(node):
         if node.type == NodeType.var:
             orig_name = node.name
@@ -511,7 +526,8 @@ def rename_tokens(ctxt, root, rename_opts):
                 
         elif node.type == NodeType.sublang:
             effective_member_renames = global_renames if members_as_globals else member_renames
-            node.sublang.rename(globals=global_renames, members=effective_member_renames, locals=local_renames)
+            node.sublang.rename(globals={**global_renames, **hinted_renames[VarKind.global_]},
+                                members={**effective_member_renames, **hinted_renames[VarKind.member]}, locals=local_renames)
             
     root.traverse_nodes(update_idents, extra=True)
 
-- 
2.43.0


From 7ce789e1fa795168740b3dc70cc168571e309f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:13 +0000
Subject: [PATCH 85/93] fix: let scripts poke any number into the rom, as poke
 can

---
 run_pico.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/run_pico.py b/run_pico.py
index 5555dd3..92bfc35 100644
--- a/run_pico.py
+++ b/run_pico.py
@@ -3,6 +3,7 @@ from utils import *
 from pico_defs import encode_p8str, decode_p8str, from_p8str, to_p8str, Memory, get_res_path
 from pico_cart import read_cart_autodetect
 from codecs import register as codec_register, CodecInfo
+from math import floor
 
 def _lupaz8_module():
     try:
@@ -88,11 +89,11 @@ def picoscript_rompeek4(mem, off, count=None):
 
 def picoscript_rompoke(mem, off, *data):
     for datum in data:
-        mem.set8(off, datum)
+        mem.set8(off, floor(datum) & 0xff)
         off += 1
 def picoscript_rompoke2(mem, off, *data):
     for datum in data:
-        mem.set16(off, datum)
+        mem.set16(off, floor(datum) & 0xffff)
         off += 2
 def picoscript_rompoke4(mem, off, *data):
     for datum in data:
@@ -103,7 +104,7 @@ def picoscript_rommemcpy(dmem, dest, smem, src, len):
     dmem.copy8(dest, src, len, smem)
 
 def picoscript_rommemset(mem, off, val, len):
-    mem.fill8(off, val, len)
+    mem.fill8(off, floor(val) & 0xff, len)
 
 def create_runtime():
     runtime = _lupaz8_module().LuaRuntime(encoding="p8scii", source_encoding="p8scii",
-- 
2.43.0


From 30e675723bd5d5c5b373b32561562154d5d4d939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:22 +0000
Subject: [PATCH 86/93] fix: don't rename to names containing the separators of
 language::split

---
 pico_process.py  |  2 ++
 pico_rename.py   |  5 +++++
 scripts/split.py | 11 +++++++++++
 3 files changed, 18 insertions(+)

diff --git a/pico_process.py b/pico_process.py
index d995be2..4a98708 100644
--- a/pico_process.py
+++ b/pico_process.py
@@ -169,6 +169,8 @@ class SubLanguageBase:
         return ()
     def lint(m, **_):
         pass
+    def get_avoided_chars(m, **_):
+        return ()
     get_unminified_chars = None # or def get_unminified_chars(m, **_):
     def get_global_usages(m, **_):
         return dict()
diff --git a/pico_rename.py b/pico_rename.py
index 6234373..60b9a0c 100644
--- a/pico_rename.py
+++ b/pico_rename.py
@@ -121,6 +121,7 @@ def rename_tokens(ctxt, root, rename_opts):
     # also takes the opportunity to find global preserve hints in code
 
     char_uses = CounterDictionary()
+    avoided_chars = set()
     def collect_chars(token):
         if token.children:
             for comment in token.children:
@@ -134,6 +135,8 @@ def rename_tokens(ctxt, root, rename_opts):
         if token.type != TokenType.ident: # including preserved idents would help a tiny bit, but isn't a clear win
                                           # (plus, it's now too early to check for preserved idents here)
             sublang = getattr(token, "sublang", None)
+            if sublang:
+                avoided_chars.update(sublang.get_avoided_chars())
             if sublang and sublang.get_unminified_chars:
                 for ch in sublang.get_unminified_chars():
                     char_uses[ch] += 1
@@ -154,6 +157,8 @@ def rename_tokens(ctxt, root, rename_opts):
     else:
         k_identifier_chars = string.ascii_letters + string.digits + "_"
     
+    k_identifier_chars = "".join(ch for ch in k_identifier_chars if ch not in avoided_chars)
+
     ident_chars = []
     for ch in sorted(char_uses, key=lambda k: char_uses[k], reverse=True):
         if ch in k_identifier_chars:
diff --git a/scripts/split.py b/scripts/split.py
index 58c54bb..7f75073 100644
--- a/scripts/split.py
+++ b/scripts/split.py
@@ -162,6 +162,17 @@ class SplitSubLang(SubLanguageBase):
             elif type == kind:
                 usages[part] += 1
 
+    def get_avoided_chars(m, **_):
+        return m.get_separators(m.data)
+
+    def get_separators(m, data):
+        sep, parts, _ = data
+        seps = {sep}
+        for part in parts:
+            if isinstance(part, tuple):
+                seps |= m.get_separators(part)
+        return seps
+
     def get_usages_of(m, kind):
         usages = CounterDictionary()
         m.collect_usages_of(m.data, kind, usages)
-- 
2.43.0


From 52bccc38dbf6216ff076845aaab740f6051e441f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:16:51 +0000
Subject: [PATCH 87/93] fix: shrinkotron failed to write a png if --title was
 given only once

---
 picotron_cart.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/picotron_cart.py b/picotron_cart.py
index f0bd92e..5abe3ea 100644
--- a/picotron_cart.py
+++ b/picotron_cart.py
@@ -390,7 +390,7 @@ def write_cart64_to_image(cart, template_image=None, template_only=False, optimi
             
             title = cart.title
             if title:
-                draw_title_on_image(image, *list_unpack(title, 2), k_title_offset, k_title_width, k_subtitle_suboffset)
+                draw_title_on_image(image, *list_unpack(title, 2, ""), k_title_offset, k_title_width, k_subtitle_suboffset)
         
         pixels = image.pixels
 
-- 
2.43.0


From a2b0ac7e33624ddbf3e8053d1ac7657aad8c788a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:16:51 +0000
Subject: [PATCH 88/93] fix: shrinkotron failed to write a png whose title has
 characters outside of the font

---
 picotron_cart.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/picotron_cart.py b/picotron_cart.py
index 5abe3ea..638bb18 100644
--- a/picotron_cart.py
+++ b/picotron_cart.py
@@ -356,7 +356,7 @@ def draw_title_on_image(image, title, subtitle, offset, width, suboffset):
                 ch_w = char_widths.get(chi)
                 if ch_w is None:
                     ch_w = 0
-                    while font_pixels[ch_x + ch_w, ch_y + 9]: # using an "underline" to measure char advance
+                    while ch_w < 10 and ch_y + 9 < font_surf.height and font_pixels[ch_x + ch_w, ch_y + 9]: # using an "underline" to measure char advance
                         ch_w += 1
                     char_widths[chi] = ch_w
                 
-- 
2.43.0


From 409828db56e17d8b26154b9ecd6900b1f0cbf477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:16:51 +0000
Subject: [PATCH 89/93] fix: --label was ignored by shrinkotron for qoi labels,
 or if the cart's label was a qoi

---
 picotron_cart.py | 5 +++++
 run_shrinko.py   | 6 +++---
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/picotron_cart.py b/picotron_cart.py
index 638bb18..3af6595 100644
--- a/picotron_cart.py
+++ b/picotron_cart.py
@@ -748,6 +748,11 @@ def merge_cart64(dest, src, sections=None):
     glob = Cart64Glob(sections) if e(sections) else None
     for path, file in sorted(src.files.items()): # sort to get dirs first
         if not glob or glob.matches(path):
+            if path in k_label_files: # replaces a label of another format too
+                for label_file in k_label_files:
+                    if label_file not in src.files:
+                        dest.files.pop(label_file, None)
+
             dest.files[path] = file
             
             # create parent directories
diff --git a/run_shrinko.py b/run_shrinko.py
index d5733f7..401e34d 100644
--- a/run_shrinko.py
+++ b/run_shrinko.py
@@ -99,7 +99,7 @@ def create_main(lang):
 
         shrinko_name = "shrinko8"
         pico_name = "pico8"
-        label_section = "label"
+        label_sections = ("label",)
 
     elif is_picotron:
         CartFormatCls = Cart64Format
@@ -121,7 +121,7 @@ def create_main(lang):
         
         shrinko_name = "shrinkotron"
         pico_name = "picotron"
-        label_section = "label.png"
+        label_sections = ("label.png", "label.qoi")
         default_keep_meta_keys = ("runtime",)
     
     else:
@@ -574,7 +574,7 @@ def create_main(lang):
                     throw("too many or few arguments to --merge (must be %s)" % ("2 or 3" if is_pico8 else "1 through 3"))
         
         if args.label:
-            extra_inputs.append(InputDef(args.label, CartFormatCls.label, sections=(label_section,)))
+            extra_inputs.append(InputDef(args.label, CartFormatCls.label, sections=label_sections))
         if args.title:
             main_cart.set_raw_title(args.title)
 
-- 
2.43.0


From 359847f3db1c58294bea9486332517b4b337a97f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:47:53 +0000
Subject: [PATCH 90/93] fix: --trace-compression listed wrong sizes of the
 symbols (the bits not yet written were subtracted)

---
 utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils.py b/utils.py
index 3c03502..e92c273 100644
--- a/utils.py
+++ b/utils.py
@@ -1291,7 +1291,7 @@ class BinaryBitWriter(BinaryBase):
 
     @property
     def bit_position(m):
-        return m.pos() * 8 - m._nbits
+        return m.pos() * 8 + m._nbits
 
     def byte_align(m):
         m.flush()
-- 
2.43.0


From 20ae606dce230f9547d7d648d75d451333021cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:47:53 +0000
Subject: [PATCH 91/93] fix: an 'end' added by constant folding could start a
 new line inside a one-line if/while, under --no-minify-lines

---
 pico_tokenize.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pico_tokenize.py b/pico_tokenize.py
index 60ad7e4..5ab94e2 100644
--- a/pico_tokenize.py
+++ b/pico_tokenize.py
@@ -250,7 +250,8 @@ class Token(TokenNodeBase):
     def synthetic(cls, type, value, other, append=False, prepend=False):
         idx = other.endidx if append else other.idx
         endidx = other.idx if prepend else other.endidx
-        return cls(type, value, other.source, idx, endidx, other.vline, other.lang, modified=True)
+        vline = other.last_token().vline if append else other.vline
+        return cls(type, value, other.source, idx, endidx, vline, other.lang, modified=True)
 
 Token.none = Token.dummy(None)
 
-- 
2.43.0


From d18cfb502913c71f9cd52f2b6c7464dca9da5f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:15:24 +0000
Subject: [PATCH 92/93] fix: text after an unterminated string was taken for a
 part of it when looking for #include-s

---
 pico_preprocess.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pico_preprocess.py b/pico_preprocess.py
index e3cc310..b088cd4 100644
--- a/pico_preprocess.py
+++ b/pico_preprocess.py
@@ -43,8 +43,16 @@ def preprocess_code(path, code, start_line=0, **opts):
 
         elif ch in ('"', "'"): # string
             i += 1
-            while list_get(code, i) not in (ch, None):
-                i += 2 if code[i] == '\\' else 1
+            while list_get(code, i) not in (ch, '\n', None): # (an unterminated string ends with its line)
+                if code[i] == '\\':
+                    i += 2
+                    if code[i-1:i] == 'z': # skips line breaks
+                        while list_get(code, i, 'x') in k_wspace:
+                            i += 1
+                    elif code[i-1:i+1] == '\r\n': # windows line break
+                        i += 1
+                else:
+                    i += 1
             i += 1
 
         elif ch != '#':
-- 
2.43.0


From 31200dd60adae25f2c4d82278d1daafdbceadbcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:15:24 +0000
Subject: [PATCH 93/93] fix: a one-line if/while ended by the end of the code
 was taken for one in the middle of a line, under --no-minify-comments

---
 pico_parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pico_parse.py b/pico_parse.py
index bfed60e..a6dcd68 100644
--- a/pico_parse.py
+++ b/pico_parse.py
@@ -688,7 +688,7 @@ def parse(source, tokens, ctxt=None, super_root=None, lang=None, for_expr=False)
         return list
     
     def short_state(vline):
-        return k_nested if peek().vline == vline else True
+        return k_nested if peek().vline == vline and e(peek().value) else True
 
     def parse_do(token):
         body = parse_block()
-- 
2.43.0

