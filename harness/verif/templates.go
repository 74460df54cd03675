package main

// templates are texts with holes (see fill), by group.
var templates = [][]string{
	// 0: prefixes
	{
		"^\x07m x", "#_\x07m x", "#=\x07m x", "#^\x07m x", "'\x07a", "`\x07a", "@\x07a", "~\x07a", "~@\x07a",
		"true\x05", "[false\x05\x05]", "\x05nil", "(\x05true \x05false nil\x05)", "\x05alse tru\x05", "'true @nil ^false x #true nil {nil false}",
	},
	// 1: arbitrary bytes in the middle of a construct
	{
		"(\x0e\x0e)", "[{(\x0e\x0e)}]", "#?\x0e\x0e\x0e", "#?(:a \x0e\x0e)", "#?@(\x0e\x0e)", "#:\x0e\x0e{}", "#:a\x0e\x0e}", "#::\x0e\x0e{}",
		"\\\x0e\x0e\x0e", "\\u00\x0e\x0e ", "\\u\x0e00\x0e", "\\o1\x0e\x0e", "\\o\x0e7\x0e)", "\\new\x0e\x0e\x0e\x0e", "\\spac\x0e\x0e",
		"\\backspac\x0e\x0e", "\\formfee\x0e ", "\\ta\x0e\x0e", "\\retur\x0e",
		"\"\x0e\x0e\"", "\"a\\\x0e\x0e\"", "#\"\x0e\x0e\x0e\"", "#_ #_ \x0e\x0e", "#'\x0e\x0e\x0e", "#' a\x0e", "'~@\x0e\x0e\x0e", "~\x0e\x0ea",
		"# \x0e\x0e a", "#\x0e \x0ea", "#!\x0e\x0e\x0e", "1\x0e\x0e\x0e", "-\x0e\x0e\x0e", "+1\x0e\x0e", "a/\x0e\x0e", ":a\x0e\x0e\x0e", "::\x0e\x0e",
		"%\x0e\x0e", "#(%\x0e\x0e)", "é\n\x0e\x0e", "(a ;\x0e\x0e\x0e)", "^\x0e\x0e x", "^{:a \x0e} \x0e", "#=\x0e\x0e)", "@\x0e\x0e",
		"truefals\x0e\x0e", "tru\x0e\x0e", "ni\x0e \x0e", "#<\x0e\x0e>", "#inst \"\x0e\x0e\"", "\x0e\x0e\x0e\x0e",
	},
	// 2: comment forms and discards
	{
		"(comment\x0e\x0e) b", "(a (comment b) \x0e c)", "'(comment\x0ea) b", "(\x0ecomment \x0e) b", "(#_a comment\x0eb)", "(^a comment b)",
		"(\n\x0ecomment\x0e)", "(;\x0e\n comment b)", "[(comment)\x0e#_\x0e c]", "#_(comment a)\x0eb", "(comment (comment a)\x0e) #_#_ a\x0eb c",
		"#_ ^a b\x0ec", "#?(:clj (comment a)\x0e#_ b)", "{(comment) \x0e #_ a b \x0e}", "#(comment \x0e)", "(comment", "((comment a)\x0e b)",
		"@(comment\x0ex)", "^(comment) a\x0e", "#{#_ \x0e (comment \x0e)}", "(my/comment\x0ea)", "(:comment\x0ea)", "(commen\x0e a) (comments a)",
	},
	// 3: one node of every kind
	{
		"(f a)", "[e a]", "#(a b)", "#{b a}", "{c d}", "#:p{q r}", "#?(:a b)", "#?@(:c d)", "'g", "`h", "~i", "~@j", "@k", "^l m", "#_n", "#=o",
		"#t p", "#'v", "\"s\" 1 :k \\c nil true #\"r\"", "([a (b)])", "#?(:a [b #{c}])", "'(a @b)", "(;c\n a)",
	},
	// 4: positions after wide characters, tabs, line breaks of every kind
	{
		"é \x0e\x0e", "\"é\n\x0e\" \x0e", ";é\n\x0e\x0e", "\r\n\x0e\r\n\x0e", "(a\n\t\x0e\n)\x0e", "λ/é\x0e\x0e 世 a", "\\é \x0e \\世\x0ea", "#\"é\n\n\x0e\"\n\x0e x",
		"[\n\n'a\x0e `b ~c\n ~@d\x0e]", "^é\x0ea #_ b\n#= c", "#é\x0ea", "# \x0ea\n b", "#:a\n{\x0eb}", "#?\n(\x0e)", "#?@\n(:a\x0e)", "#'\x0ea b", "#!é\n\x0e\x0e",
		"\xef\xbb\xbf\x0e\x0e", "\U0001F600\x0e\x0e",
	},
	// 5: any head of a few letters
	{
		"(\x01\x01\x04a\x04b\x04c\x04d)", "(\x01\x01\x01\x04[a\x04b\x04c]\x04d)", "(\x01\x01\x01\x01\x04a\x04b\x04c\x04d)",
		"(x/\x01\x01\x01\x04a\x04b)", "(\x01\x01\x01-x\x04a\x04b)", "(\x01\x01\x01\x01-x\x04b\x04c)", "(\x05\x05\x04a\x04b)",
		"(\x01\x01\x01\x01\x01\x04[a\x04b\x04c]\x04d)", "(x/y/\x01\x01\x01\x01\x04a\x04b)", "(:\x05\x05\x04a\x04b)",
		"(def\x01\x01\x01\x04a\x04(b\x04c))", "(\x01\x01\x01\x01\x01\x01\x04a\x04(b\x04c))", "(if-\x01\x01\x01\x04[a\x04b]\x04c\x04d)",
		"(when-\x01\x01\x01\x01\x04[a\x04b]\x04c)", "(with-\x01\x01\x01\x01\x04[a\x04b]\x04c)",
	},
	// 6: a head of every style before elements of every kind
	{
		"(\x11\x04a\x04b\x04c\x04d\x04e)", "(\x11\x04[a\x04b\x04c\x04d]\x04e\x04f)", "(\x11\x04a\x04(f\x04b)\x04(let\x04[c\x04d]\x04e))",
		"(\x11\x04;c\na\x04b\x04;d\nc\x04d)", "(\x11 ;c\na\x04b\x04^m\x04c\x04d)", "(\x11\x04a\x04#_b\x04c\x04#t\x04d\x04e)",
		"(\x11 [(f\x04[x]\x04y)\x04(\x04g\x04x)]\x04z)", "(\x11 a\x04[b]\x04(f\x04[x]\x04y)\x04(g\x04z))",
		"(\x11 [a\x04b\x04:let\x04[c\x04d]\x04e\x04[f\x04g]]\x04h)", "(\x11\x04x\x04y\x04#{z}\x04:>>\x04w\x04v\x04u)",
		"#(\x11\x04[a\x04b]\x04c\x04d)", "'(\x11\x04a\x04@(b\x04c)\x04d)", "(a (\x11 \"x\ny\" b\x04c)\x04d)", "(é\x04(\x11 é\x04b)\x04c)",
		"(\x11 ^m\x04[a\x04b]\x04(c\x04d))", "(\x11\x04\x04a\x04\x04b\x04\x04c)", "[(\x11\x04a\x04\x04;x\n)\x04b]",
		"{a\x04b\x04;c\nc\x04d\x04e\x04f}", "#?(:a\x04b\x04:c\x04(f\x04d))", "[#{a\x04b}\x04(c\x04d)\x04#:x{a\x04b}]", "(\x04\x04a\x04b\x04c)",
		"((a\x04b)\x04c\x04(\x11\x04d))", "{a\x04^m\x04b\x04#_c\x04d\x04e}", "(\x11 a b c\x04d\x04e\x04f\x04g)", "'\x12(a\x04b\x04#_\x12c)",
		"~\x12@(a\x04b)", "(\x11\x04\x11\x04a)", "(foo (\x11\x04a\x04b)\x04(\x11\x04c))",
	},
	// 7: line breaks that transforms move
	{
		"(defn\x07foo\x07[x]\x08a)", "(defn f\x07[x]\x07[y]\x07a)", "(defn f \"doc\"\x07[x]\x07a)", "(defn f\x07^m\x07[x]\x07a)", "(defn- f\x07[x] a)",
		"(defn ^m\x07f\x07[x] a)", "(defn\x07[x]\x07a)", "(a (defn f\x07[x] a))", "(defn f\x07(\x08[x]\x08a)\x08)", "(defn f\x07[x]\x08)",
		"(defmethod\x07f\x07:k\x08[x]\x08a)", "(defmethod f\x07k\x07[x]\x07a)", "(defmethod f\x07:k\x08)", "(defmethod f\x07:k #_a\x07[x])", "(a (defmethod f\x07:k a))",
		"(if\x07a\x07b\x07c\x08)", "(if-not a\x07^m b\x07c\x08d)", "(if-let [a b]\x07c\x07(if d\x07e\x07f))", "(if-some\x07[a b]\x07#t\x07c\x07d)", "#(if a\x07b\x07c)",
		"(if a\x07#_b\x07c\x07d)", "(if a\x07b\x08)", "'(if #?(:a b)\x07c\x07d)", "[(if a\x07b\x07c)\x08]", "(x/if a\x07b\x07c)", "(if ^m\x07a\x07b\x07c)",
		"\x08a\x08", "\x07\x07a\x07\x07b\x07\x07", "(\x08a\x08)\x08", "[\x08]\x07{\x08}", "#{\x08a\x08}#(\x08b\x08)", "#?(\x08:a\x07b\x08)", "#?@(\x08:a [\x08b\x08]\x08)",
		"(a\x08\x08\x08)", "'(a\x08)\x07\x07b", "(a ;\x06\x06\x0e)", "(a\x07b\x07c)\x07\x07\x07d", "#_\x07(a\x08)\x07b", "^{\x08a b\x08}\x07c",
	},
	// 8: strings
	{
		"(def a \"\x06\n\x06\x06\x06\" 1)", "(defn a\x04\"x\n\x06\x06y\x06\n\x06\"\x04[])", "(ns a \"\n\x06\x06\x06\" (:b))", "(defmacro abc \"\x06\n   \x06\x06\n \\\\\x06\"\x04[])",
		"(defmulti a\x07\"\n\x06\x06\x06\"\x08b)", "(def a \"x\n\x06\x06\x06\")", "(def a\x04[] \"x\n\x06\x06\" 1)", "(def ^m a \"x\n\x06\x06\" 1)", "(a (def b \"x\n\x06\x06\" 1))",
		"(def\x04a \"x\n\x06\x06\" #_1)", "(def a #_b \"x\n\x06\x06\" 1)", "(defn a \"\x06\" \"x\n\x06\x06\" [])", "(defonce a \"x\n\x06\x06\" 1)", "(def a \"\x06\\\x06\n\x06\x06\\\x06\x06\" 1)",
		"(def a #\"x\n\x06\x06\" 1)", "\"\x06\n\x06\x06\"", "(x \"\x06\\\\\n\x06\x06\" #\"\x06\n\x06\" \\\x05)", "'(def a \"x\n\x06\x06\" 1)", "(def :a \"x\n\x06\x06\" 1)",
		"(def a \"x\n\x0e\x0ey\" 1)", "(def a \"x\n  y\x0e\x0e\" 1)", "(def abc ;d\n \"x\n\x06\x06  y\n\n\x06\"\x04;e\n 1)", "(def é \"x\n \x06\x06\x06y\" 1)", "(def x/y \"\n\x06\x06\" 1)", "(def nil \"\n\x06\x06\" 1)",
		"(def a \"x\n\x06\x06\"\x08)", "(ns a \"x\n\x06\x06\"\x08)", "(\x01\x01 (def a \"x\n \x06\x06\" 1))", "(\x01\x01\x01 a \"x\n \x06\x06\" 1)", "(def a ;b\n\"x\n\x06\x06\"\x08;c\n\x08)",
		"(defn f\x04\"a\nb\n b\n  b\n   b\n    b\n     b\n      b\n       b\n        b\n         b\n          b\n           b\n            b\n             b\n              b\n               b\n                b\n                 b\n                  b\n                   b\n                    b\n                     b\n                      b\n                       b\n                        b\n                         b\n                                 b\n                                        b\n                                                                b\n                                                                      b\n                                                                                                    b\"\x04x)", "(ns n.o.p \"a\nb\n b\n  b\n   b\n    b\n     b\n      b\n       b\n        b\n         b\n          b\n           b\n            b\n             b\n              b\n               b\n                b\n                 b\n                  b\n                   b\n                    b\n                     b\n                      b\n                       b\n                        b\n                         b\n                                 b\n                                        b\n                                                                b\n                                                                      b\n                                                                                                    b\"\x12(:x))", "(def ^m f\n\"a\nb\n b\n  b\n   b\n\tb\n\t b\n\t  b\n\t   b\n\t\tb\n\t\t b\n\t\t  b\n\t\t   b\n\t\t\tb\n\t\t\t b\n\t\t\t  b\n\t\t\t   b\n\t\t\t\tb\n\t\t\t\t b\n\t\t\t\t  b\n\t\t\t\t   b\n\t\t\t\t\tb\n\t\t\t\t\t b\n\t\t\t\t\t  b\n\t\t\t\t\t   b\n\x05\x05\x05b\"\x04x)",
	},
	// 9: prefixes, comments and discards in every place
	{
		"#_\x08a\x07b", "'\x08(a\x07b)", "^\x08a\x07(b\x08)", "~\x08@a", "~@\x08a", "(f\x07#_\x08a\x07b)", "#_ #_ a\x07b\x07c", "@\x08'\x08a", "(a\x08#=\x08(b\x07c))",
		"(a ;\x06\x06\n\x08b)", ";\x06\x06\n\x08a\x08", "#!\x06\x06\n\x08a", "(;\x06\n\x08)", "[a;\x06\n]\x08b", "{a ;\x06\n\x08b\x08}", "#?(:a\x08;\x06\n\x08b)", "'(;\x06\n)",
		"(a ;x\r\x0e\x0e\n)", ";x\r\n\x0e", "(a ;x\r)\x0e", "';x\ra", "#\x08t\x07a", "# \x0ex a", "#' \x01\x08b", "#:a \x04{\x08b\x07c}", "#? \x04(\x08:b\x07c)", "\\;\x08a", "\"\x06\";\x06\n\"\x06\"",
		"(a ;b\n ;\x06\n\x08;d\n\x08e)", "(comment\x07a\x08;\x06\n)", "#_;\x06\n#_\x08a\x07b", "^\x08^\x08a\x08b\x07c", "(if ;a\nb\x07c\x07;d\ne)", "(defn f ;\x06\n[x] a)", "(defn f\n[x];\x06\na)",
		"(defmethod f\n:k;\x06\na)", "(defmethod f\n;\x06\n:k a)", "(if a b ;\x06\n)", "(if a ;\x06\nb c)", "(let [a\x08;\x06\n\x08b]\x08;c\n\x08)",
	},
	// 10: blanks of every kind between forms
	{
		"(a\x02\x02b\x02)", "\x02a\x02\x02(\x02b)", "[\x0e\x0ea\x0eb]", "{a\x0eb,\x0e}", "'\x0e\x0ea", "#_\x0e\x0ea b", "~\x0e\x0ea", "(a)\x0e(b)\x0e[c]", "\"a\"\x0e\"b\"\x0e:c", "\\a\x0e\\b\x0e",
		"a\x0e\x0e\x0e", "#\x0et\x0ea", "#'\x0ea\x0eb", "#?\x0e(:a\x0eb)", "#:a\x0e{\x0eb c}", "^\x0em\x0ex", "a\x0e\n\x0e\n\x0eb", "(\x0e\n\x0ea)", "a,\x0e;b\x0e\n\x0e", "\xc2\xa0\x0ea\xe2\x80\xa8\x0eb",
	},
	// 11: names and requires (C15)
	{
		"(ns n (:require [x.\x10 :as \x10]))\n(\x10/f\na\nb)", "(ns n (:require [x.\x10 :refer [\x01 g]]))\n(\x01\na\nb)", "(ns n (:require (x.\x10 :as \x10 :refer :all)))\n(\x10/f\na\nb)",
		"(ns n (:require-macros [x.\x10 :refer-macros [f]]))\n(\x01\na\nb)", "(ns n (:use [x.\x10 :only [f]]))\n(f\na\nb)", "(ns n (:require x.a [x.\x10]))\n(x.\x10/f\na\nb)",
		"(\x01\x05f\na\nb)", "(x.\x10\x05f\na\nb)", "(y/\x01\na\nb)", "(x.a/\x01\na\nb)", "(f\x05\na\nb)", "(\x01/\x01\x01\x01\na\nb)", "(:f\na\nb)", "(x.a/let\n[a\nb]\nc)", "(let\n[a\nb]\nc)",
		"(ns n (:require [x.\x10 :as x.\x10]))\n(x.\x10/f\na\nb)", "(ns n (:require [x.a :as c :include-macros true]\n[x.\x10 :as b :as \x10]))\n(\x10/f\na\nb)",
		"(\x10/f\na\nb)\n(ns n (:require [x.a :as b]))", "(ns n (:require ^m [x.\x10 :as b] #_[x.a :as \x10]))\n(\x10/f\na\nb)", "(ns n (:import [x.a f] (x.a :as b)))\n(b/f\na\nb)\n(f\na\nb)",
		"(ns n (:require [x.\x10 :as b ;c\n:refer [g ;c\nf]]))\n(\x10/f\na\nb)\n(f\na\nb)", "(ns n (:require [x.\x10 :as b]))\n(\x10/let\n[a\nb]\nc\nd)", "#(x.\x10/f\na\nb)", "(ns n [:require [x.a :as b]])\n(\x10/f\na\nb)",
		"(ns n (:require [x.a :refer [let]]))\n(let\n[a\nb]\nc\nd)", "(ns n (:require [x.\x10 :as \x10] [x.\x10 :as \x10]))\n(\x10/f\na\nb)", "(x.a/x.a/f\na\nb)", "(ns n (:require [x.\x10 :as \x10]))\n(x.\x10/f\na\nb)\n(y.\x10/f\na\nb)", "(ns n (:require [x.\x10 :as y.\x10]))\n(y.\x10/f\na\nb)", "(/\na\nb)", "(ns n (:require [x.\x10 :refer [g /]]))\n(/\na\nb)", "(ns n (:require [x.\x10 :as \x10]))\n(\x10//\na\nb)\n(x.a//\na\nb)", "(ns n (require [x.a :refer (g f)]))\n(\x01\na\nb)",
	},
	// 12: thread-first forms (C16)
	{
		"(\x13 x\x04(case\x04a\x04b\x04c)\x04(condp a\x04b\x04c\x04d))", "(\x13 (case a\nb\nc)\n(case a\nb\nc)\n(case a\nb\nc)\n(case a\nb\nc))", "(\x13 x (\x13 (case a\nb\nc) (case a\nb\nc)) (case a\nb\nc))",
		"(\x13 x y (\x13 (case a\nb\nc) (case a\nb\nc) z (case a\nb\nc)))", "(\x13 ;c\nx ^m (case a\nb\nc) #t (case a\nb\nc) z (condp a b\nc\nd))", "#(\x13 x (case a\nb\nc) (e a\nb\nc\nd\ne\nf))",
		"(\x13\nx\n;c\n(case\na\nb\nc)\n\n(cond a\nb))", "'(\x13 x @(case a\nb\nc) #_(case a\nb\nc) (case a\nb\nc))", "[-> x (case a\nb\nc)]", "{-> (case a\nb\nc) x (case a\nb\nc)}", "(\x13 x [(case a\nb\nc)] #(case a\nb\nc) (f (case a\nb\nc)))",
		"(\x13 x (let [a (case a\nb\nc)\nc\nd] e) (assoc\na\nb\nc))", "(\x13)", "(\x13 (case a\nb\nc))", "(\x13 #_y x (case a\nb\nc))", "(\x13 x (cond-> (case a\nb\nc)\n(case a\nb\nc)\n(case a\nb\nc)))", "(\x13 x #?(:a (case a\nb\nc)) (case a\nb\nc))",
		"(\x01\x05\x05 x (case a\nb\nc) (case a\nb\nc))", "(\x05\x05 x (case a\nb\nc) (case a\nb\nc))", "(some-> x (case a\x04b\x04:>>\x04c\x04d))", "(\x13 x (condp\x04a\x04b\x04:>>\x04c\x04d\x04e))", "(a (\x13 x (case a\x04b\x04c)) (case a\x04b\x04c))",
		"(\x13 (\x13 x (case a\nb\nc) (case a\nb\nc)) (case a\nb\nc))", "(letfn [(\x13 x (case a\nb\nc))] (\x13 x (case a\nb\nc)))",
	},
	// 13: entries to sort (C20)
	{
		"(ns n (:require\x04\x10\x04[\x10 :as q]\x04(\x10)\x04;d\n\x10 ))", "(ns n (:require ;a\n[\x10 1] ;b\n;c\n[\x10 2]\n;d\n[\x10 3] ;e\n;f\n))", "(ns n (:import\x04\x10.\x10\x04(\x10 B)\x04[\x10 D]))", "(ns n (:require-macros [\x10\x10] [\x10]\x04[\x10\x10 1]))",
		"(ns n (:require ^m [\x10 1] #t\x04[\x10 2] #_x\x04[\x10 3]))", "(ns n (:require 3 [\x10 1] \"s\" [\x10 2]\n#?(:a b) \x10))", "(ns n (:require [\x10 1]\n\n;a\n\n[\x10 2];b\n[\x10 3]) (:import (\x10 1)\n(\x10 2)))", "(ns n (:require ;a\n;b\n\x10\n^m ;c\n[\x10] ;d\n^m))",
		"(ns n (:require [\x10\x05 1]\n[\x10\x05 2]))", "(ns n (:use c b a) (:require) (:import a) (:refer-clojure :exclude [b a]))", "(ns n (:require [\x10 1]\n;x\n;y\n[\x10 2] ;z\n[[\x10] 3]\n(\"\x10\" 4)))", "(ns n (:import \x10.\x10.\x10 ;c\n\x10.\x10))",
		"(ns n (:require [\x10 1] [\x10 2] [\x10 3] [\x10 4]))", "(ns n (:require [nil 1] [\x10 2] nil \x10))", "(ns n (:require\n[\x10 1] ;\x06\n\n;\x06\n[\x10 2]))", "(ns n (:require [\x10 [y :as z]]\n(\x10 [v :as w])\n\x10))", "(a (:require b a))", "(ns n (a (:require [b] [a])))",
		"(ns n\n(:require ; x\n #_[c] ; y\n[\x10] ; z\n ^:m ^:o [\x10] ; w\n))", "(ns n (:require-macros \x10 ;a\n\x10) (:import [\x10] ;b\n(\x10 x)))",
		"(ns n (:require\x12;b\n\x12) (:import ;c\n\x12))", "(ns n (:require 1\x12\"s\"\x12[3]\x12\x10\x12))", "(ns n (:import [(\x10)]\x12{}\x12(\x10 b)\x12#{c}))",
		"(ns n (:require [\x10]\n;c\n;d\x04\x04[\x10]\x07[\x10]))", "(ns n (:require\n;c\n;d\x04\x04[\x10] ;e\n;f\n;g\n;h\n\n[\x10]\x07;i\n))",
	},
	// 14: a few line breaks that transforms move (C23)
	{
		"(defn f\x04[x]\x04a\x04)", "(defmethod f\x04:k\x04a\x04)", "(if a\x04b\x04c\x04)\x04\x04\x04d", "[a\n\n\x04\x04b\x04]", "(a ;c\n\x04)\n\n\n\x04b", "'(if\x04a b\x04c)\n\n\x04\x04b", "(defn f\n[x]\x04(if a\x04b c)\x04\x04)",
		"#{(if a\x04b\nc\n)\x04}", "{a\x04;c\n\x04b\x04}", "#?(:a\x04\x04\x04b\x04)", "(if-let a\n^m\x04b\x04c)", "#(a\x04)\x04\x04\x04\x04", "(defmethod\x04f\x04\x04:k\x04)", "(defn\x04f\x04\x04[x] a\n)",
		"(a\x08\n)", "';\x06\n(b\x08)", "(if-not a ;c\n b\x04c)", "(defn f ;c\n [x]\x04a)", "(defmethod f\n:k ;c\n)\n\x04\x04a", "(if-some a\x04#_b\x04c\x04d)", "(let [a\x04b\x04]\n\n\x04c\x04)", "(a ;c\r)\x04\x04\x04b", "^{\x04a b\x04}\x04\x04\x04c",
	},
	// 15: ns forms without anything to rewrite but layout (C23)
	{
		"(ns n (:require c\x04[a\x04]\n)\x04(:use b))\n\n\x04a", "(ns n [:import b.c a]\x04(:require (c) [b :as d])\x04)", "(ns n (:require [a :as b]\x04\x04\x04[a :refer [c]]) (:use a))(d)", "(ns n \"d\" (require b a)\n\n\x04\x04(:refer-clojure :only (a)))",
	},
	// 16: style rules (C21)
	{
		"(ns n (\x14\x04a\x04(b :as c)\x04[d :refer (e f)]))", "(ns n [\x14\x04a b.c (d e)])", "(ns n (\x14 a\x05b c.d) (\x14 x))", "(ns n (\x14)\x04[\x14]\x04(\x14 ;c\na ;d\n) [])", "(ns n \"d\" ^m (\x14 a) {:x (require a)} (:x (import a.b)))",
		"(ns n (import \x05\x05\x05 [\x10.b C] (d E)))", "(ns n (import a.\x05 .\x10 \x10. \x10))", "(ns n (require ^m a #_b 'c #t d #?(:e f) \"g\" [h (i (j))] {k (l)} ([m]) 1 nil))", "(ns n (\x14 (a (b :as c)\x04[d :as e]\x04f)) (\x14\n[g :exclude (h)]))", "(x (require a)) (ns n (load a))(import b.c)",
		"(ns n (:\x01\x01\x01 a (b)))", "(ns n (\x01\x01\x01 a (b)))", "(ns n (:require\x01 a (b)) [::require a] [\"require\" a] [] ())", "(ns n (:refer-clojure\x04:exclude (a b)) (:gen-class\x04:name a))", "'(ns n (require a))", "(ns n (;c\nrequire a) (#_x import a.b) [:import ;d\n[a B]])", "(ns n (require)\x04[import]\x04(use a))",
		"(ns n (:import b.\x05.\x05 \x05.B.c$D))", "(ns n (import \x1a.\x1a.\x1a A.\x05b))", "(ns n (import a.B/\x05 a.\x05/b a/b.\x05))",
		"(ns n (import a.+\x05 a.-\x05 a.\x051 +.a -a.b a.+ a.-))",
	},
	// 17: use and require (C24)
	{
		"(ns n (:use\x04\x10\x04[\x10 :only [\x10 d]]) (:require [\x10 :as \x10] [\x10 :refer [\x10]]))", "(ns n (:require [\x10 :as x]\n[\x10 :as y :refer (e)]\n\x10) (:require [\x10 :refer-macros [m]] (\x10 :as z)))", "(ns n (:use [\x10] [\x10 :as y] (\x10 :only (e ;c\nf)) 3 [\x10 :rename {}]))",
		"(ns n (:use \x10)\x04(:import x.Y)\x04(:use [\x10 :only [a]])\x04(:x y))", "(ns n (:require ^m \x10 [\x10 [b :as c]] #_d [\x10 :as x :include-macros true]) (:use \x10))", "(ns n (:use ;c\n\x10 ;d\n[\x10 :only [x]] ;e\n;f\n))", "(ns n (:require [\x10 :refer [x]] [\x10 :refer [x y]] [\x10 :refer-macros [z]] [\x10 :refer-macros [w]]))",
		"(ns n (:use-macros [\x10 :only [x]]) (:require-macros [\x10]) (:use \x10))", "(ns n \"d\"\x04(:use)\x04(:require)\x04(:use \x10))", "(ns n (:use [\x10 :only []] [\x10 :only [x 1]] [\x10 :only x] [\x10 :exclude [y]] [] [3]))", "(ns n (:use \"\x10\" :k [\x10 :only [x]] ^m [\x10] #t x))", "(ns n (:require [\x10 :as \x10] [\x10 :as \x10] [\x10 :as \x10]))",
		"(ns n (:require \x10) (:use [\x10 :only [x]])) (use 'a) (:use b)", "(ns n (:require [\x10 :refer [x ^m y]] [\x10 :refer [#_z w]] [\x10 :refer :all] [\x10 :as]) (:use \x10))", "(ns n (:use [\x10\n:only\n[x]\n] (\x10 ;c\n)))", "(ns n (:use a b) (:use c))", "(ns n (:require [a :as b :refer [c] :refer-macros [d]]) (:use [a :only [e]]))",
		"(ns n ;a\n(:use ;b\n[\x10 :only [x]] ;c\n;d\n[\x10 :only [y]] ;e\n[\x10 :only [z]] ;f\n;g\n) ;h\n;i\n(:require ;j\n\x10 ;k\n3 ;l\n;m\n) ;n\n)", "(ns n (:require [a :refer [x]] ;c\n;d\n[a :refer [y]] ;e\n;f\n[a :refer [z]] ;g\n[a :refer [w]] ;h\n))\n(x y z \x10)",
		"(ns n (:use 3 ;a\n[\x10 :exclude [x]] ;b\n;c\n(:y) ;d\n\x10 ;e\n))", "(ns n (:use [\x10 :only [x]] ;a\n[\x10 :exclude [y]]\x12) ;b\n(:use [z 1] ;c\n))",
	},
	// 18: unused requires (C25)
	{
		"(ns n (:require [x :as \x10] [y :refer [\x10 d]] [z :as \x10 :refer [\x10]]))\n(\x10/f \x10)", "(ns n (:require [x :as a] [y :as b]))\n#'\x10/f ::\x10/k :\x10/k", "(ns n (:require [x :as a :refer-macros [b c]]\n[\x10 :as q]\n[b]))\n\x10/v #::\x10{:k v} #:\x10{:k v}",
		"(ns n (:require [x-y.\x10 :as q] [x-y :refer [r]]) (:import (x_y.\x10 C) x_y.D))", "(ns n (:require \x10 (c) [c] [c :as d] [\x10 :as e] 3 [e [f :as g]] ^m [g :as h] [i :refer :all] [j :as k :x l]))\n\x10/u", "(ns n (:require-macros [x :as a] [y :refer [b c]]))\n'(\x10 [@\x10/z])", "(ns n (:require [x :as a])\n(:use y)\x04(:require [x :as b]))\n#_\x10/c",
		"(ns n (:require [x :as a] ;c\n;d\n[y :as b] ;e\n))\n{\x10/x \"a/b\"} #\x10/t :b/x", "(ns n (:require [a :as a] [x :refer [\x10]]))(def \x10 1)", "(ns n (:require [x\n] [y ;c\n] [z :as a :refer []]))", "(ns n (:require [x :as a :refer [b c]] [x :as c :refer [d b]]))\n\x10/y\n(\x10 d)", "(ns n (:require ^m [x :as a] #t [y :as b] #_[z :as c]))\n\x10/y",
		"(ns n (:require [x :as a]))", "(ns n (:require [x :as a])\x04)\n\x05\x05b", "(ns n (:require [x :refer [a]]))\n\x05\x05 b", "(ns n (:require [x.y :as a]))\n(x.y\x05z)", "(ns n (:require [x :as a] [y :as b]))\n#?(:clj \x10/f) ^\x10/t c #=(\x10/d)", "(ns n (:require [x :refer [+ /]]))\n(\x05 a\x05/)", "(ns n (:require [x :as a :refer [/]]))\n\x10// \x05", "(ns n (:require [x :refer [a b]]))\n#'\x10 ~\x10 #_\x10", "(ns n (:require [x :refer [a b]] [y :as c]) (:import [x a] \x10.D))\n:a ::b \"c/d\" \\a",
		"(ns n (:require [x :refer [\x10\x04\x10\x12d]] [y :refer-macros (\x10\n;c\ne\n)]))\n(\x10 d)", "(ns n (:require [x :refer [a\n\x10\nb]\n:as\nq] ;c\n))\n(a \x10 b)",
	},
	// 19: containers and prefixes in each other
	{
		"\x16\x16\x16a\x17\x17\x17", "\x16\x16a\x04b\x04\x17\x04\x17", "\x16(comment a)\x17 b", "\x16#_a b\x17 c", "\x16;c\na\x08\x17 d", "(\x16a\x17\x04\x16b\x17)",
		"\x16\x16(comment a)\x17\x17 b", "\x16\x16#_a b\x17\x17 c", "\x16^m\x04a\x17\x04b",
		"(a \x16\x16b\x04\x17\x04\x17)",
	},
	// 20: more entries of a clause than an insertion sort takes
	{
		"(ns n (:require [\x10 1] [\x10 2] [b 3] [b 4] [b 5] [b 6] [b 7] [b 8] [b 9] [b 10] [b 11] [b 12] [\x10 13] [b 14] [b 15]))",
		"(ns n (:import 1 2 3 4 5 6 7 [\x10 8] \x10.b 10 11 12 13 14 \x10.c 16 [\x10 17]))",
		"(ns n (:require-macros [\x10 1] [a 2] [b 3] [a 4] [b 5] [a 6] [b 7] [a 8] [b 9] [a 10] [b 11] [a 12] [b 13] [\x10 14] \x10))",
	},
	// 21: bindings of for
	{
		"(for [\x18\x04\x18 \x18\x04\x18] e)", "(doseq\x04[a b \x18\x04\x18\x04c]\x04e)", "(let [\x18\x04\x18]\x04e)", "(for ^m [\x18 \x18 \x18\nd] e)", "(for \x18 [a\x04:let [b\x04c]])",
		"(let [a\x04:>>\x04b\x04c\x04:>>\x04d]\x04e)", "(condp [a\x04:>>] b\x04c\x04:>>\x04d\x04e)", "(loop [:>>\x04a\x04:>>\x04:>>\x04b\x04c] d)", "(for [a\x04:>>\x04:let [b\x04:>>\x04c\x04d]\x04e] f)",
	},
	// 22: arms and moved line breaks with comments
	{
		"(if a\x12b\x12c\x12)", "(if\x12a\x04b\x12c\x04d)", "(if-let [a b]\x12#_c\x12d\x12e)", "(defn f\x12[x]\x12a\x12)", "(defmethod f\x12:k\x12[x]\x04a)", "[a\x12\x12\x12b]", "\x12\x12a\x12\x12\x12b",
		"a\x04\x04\x04\x04\x04\x04b", "(a\n\n\x04\x04\x04\x04b)", "[a ;c\n\n\n\x04\x04\x04;d\n\x04\x04]", "(a\n\x04;\n\x04b\x04;\n)", ";\n\x04\x04;\n\x04a ;\n\x04\x04;\n", "(if ;\na\x04;\nb\x04c ;\n)",
	},
	// 23: heads with overrides
	{
		"(\x19 a\x04b\x04c\x04d\x04e\x04f\x04g)", "(t x (\x19 a\x04b\x04c\x04d\x04e\x04f))", "(\x19 [a\x04b]\x04[c\x04:let\x04d]\x04(e\x04f)\x04g)", "(y/\x19 ;c\n[(a\x04b)\x04c]\x04d)", "#(\x19\x04a\x04b\x04c\x04:>>\x04d\x04e)",
	},
	// 24: names in upper and lower case
	{
		"(ns n (:require [b :refer [\x1a \x1a]] [b :refer [\x1a \x1a]] [b :as \x1a] [b :as \x1a]))", "(ns n (:use [b :only [\x1a]] \x1a [\x1a :only [c]]) (:require [b :refer-macros [\x1a]] [b :refer-macros [\x1a]]))",
		"(ns n (:require [\x1a\x1a] [\x1a\x1a]) (:import \x1a.b (\x1a c)))", "(ns n (:require [x :as \x1a :refer [\x1a]]))\n(\x1a/b \x1a)",
		"(ns n (:require [b :as c\x05] [b :as c\x05] [b :as \x10]))", "(ns n (:require [b :refer [c\x05 c\x05 \x10]] [b :refer [c]]))", "(ns n (:use [b :only [c\x05 c\x05]] [b :only [\x10]]))",
	},
	// 25: require and import clauses
	{
		"(ns n (:require \x1b\x12\x1b\x12\x1b\x12))", "(ns n (:import \x1e\x12\x1e\x12\x1e\x12))", "(ns n (:require \x1b\x04\x1b) (:import \x1e\x04\x1e) (:require \x1b))", "(ns n (:require-macros \x1b\x12\x1b))",
		"(ns n (:require [\x1f 1]\x12[\x1f 2]\x12[\x1f 3]))", "(ns n (:import \x1f (\x1f A) [\x1f B]))", "(ns n (:require ;a\n\x1b ;b\n;c\n\x1b ;d\n))", "(ns n (require \x1b) (import \x1e))", "(ns n (:require \x1f \x1f \x1f))",
	},
	// 26: use and require clauses
	{
		"(ns n (:use \x1c\x12\x1c) (:require \x1b\x12\x1b))", "(ns n (:use \x1c\x12\x1c\x12\x1c\x12))", "(ns n (:require \x1b\x04\x1b\x04\x1b))", "(ns n (:require \x1b) (:use \x1c) (:require \x1b) (:use \x1c))", "(ns n (:use \x10) (:require [\x10 :as \x10] [\x10 :as \x10]))",
		"(ns n (:require [\x10 :refer [\x10]] [\x10 :refer [\x10]] [\x10 :refer [\x10]]))", "(ns n (:require [\x10 :refer-macros [\x10]] [\x10 :refer-macros [\x10]] [\x10 :refer-macros [\x10]]))", "(ns n (:use [\x10 :only [\x10]] [\x10 :only [\x10]] [\x10 :only [\x10]]))",
		"(ns n (:require [\x10 :as \x10] \x1b [\x10 :as \x10]) (:use \x1c))", "(ns n (:require [\x10 :as a] [\x10 :as b] [\x10 :as c]) (:use \x1c))", "(ns n (:require (\x10 :refer [x]) [\x10] [\x10 :refer-macros [y]]) (:use [\x10 :only [z]]))",
	},
	// 27: requires and what is used of them
	{
		"(ns n (:require \x1b))\n\x1d", "(ns n (:require \x1b)\x04(:import \x1e))", "(ns n (:require \x1b\x04\x1b)) \x1d", "(ns n (:require-macros \x1b)) \x1d", "\x1d (ns n (:require \x1b))", "(ns n (:require [x :as \x10 :refer [\x10]])) \x1d \x1d",
		"(ns n (:require [x :as a] [y :refer [b]])) \x1d", "(ns n (:require [\x10 :as c]\x12\x1b)) (\x1d (\x1d))", "(ns n (:require [a :refer [\x10 \x10] :as b])) \x16\x1d\x17", "(ns n \x1d (:require [x :as \x10])) \x16\x1d\x17", "(ns n (:require [a-d :as x]) (:import \x1e \x1e))",
	},
	// 28: characters of several bytes
	{
		"a\x0bb", "\x0b", "\x0ba\nb", "\"\x0b\" b", ";\x0b\nb", "\\\x0b a", "(\x0b\na\nb)", "(a \x0b\nb)", "[\x0b\na]", "{\x0b\na b\n c}", "#\"\x0b\" a", "(def a \"b\n \x0b\" c)", ":\x0b a", "'\x0ba", "#_\x0ba b", "#\x0ba b", "^\x0ba b", "(let [\x0b\nb] c)", "(c\x0b;d\nb)", "#:\x0b{a b}", "a\n\x0b\nb", "(if a\x0bb\nc)", "(a ;\x0b\n\x0bb)", "(\x0b", "\"\x0b", "(a\x0b])",
	},
	// 29: literals and names of several arbitrary characters
	{
		"\\\x01\x01\x01 a", "\\\x01\x01\x01\x01 a", "\\\x01\x01\x01\x01\x01 a", "\\\x01\x01\x01\x01\x01\x01 a", "\\\x01\x01\x01\x01\x01\x01\x01 a", "\\\x01\x01\x01\x01\x01\x01\x01\x01 a", "\\\x01\x01\x01\x01\x01\x01\x01\x01\x01 a", "\\\x01\x01\x01\x01\x01\x01\x01\x01\x01\x01 a",
		"1\x0c\x0c a", "1\x0c\x0c\x0c a", "1\x0c\x0c\x0c\x0c a", "1\x0c\x0c\x0c\x0c\x0c a", "1\x0c\x0c\x0c\x0c\x0c\x0c a", "-1\x0c\x0c\x0c", "+\x0c\x0c\x0c", ".\x0c\x0c\x0c",
		"0\x0c\x0c\x0c", "-1\x0c\x0c\x0c\x0c", "+\x0c\x0c\x0c\x0c", ".\x0c\x0c\x0c\x0c", "0\x0c\x0c\x0c\x0c", "#:\x05\x05{\x10 1}", "#::\x05\x05{a 1}", "#:::\x01{a 1}",
		"#:\x01\x05\x05{}", ":\x05\x05\x05", "::\x05\x05", "\x01\x05\x05\x05", "\x05\x05\x05", "#\x05\x05 a", "#\x01\x05\x05 a", "#\x01\x01\x01\x01 \"\x05\"",
		"\\u\x05\x05ab ", "\\uf\x05\x05a ", "\\o\x05\x05\x05 ", "\\u00\x05\x05\x05", "\"\\\x05\\\x05\x05\" a", "\"\\u\x05\x05ab\"", "#\"\\\x05\x05[\x05]\"", "%\x05\x05 #(%\x05 %)", "a\x05/\x05b",
		"a.\x05.b/\x05", "##\x05\x05\x05", "##Inf ##\x01\x01\x01", "#\x05(a)", "#\x05[a]", "#\x05{a b}", "#^\x05 a", "#\x05\"a\"",
		"1\x05\x05\x05", "-\x05\x05", "+\x05\x05", "\\\x05\x05", "@\x05a '\x05b", "`\x05c ~\x05d",
		"(:\x05\x05 a)", "(\x05\x05 b)", "(:\x01\x01\x01)", "(\x01\x01\x01 a)",
	},
	// 30: ns forms with empty comments and more
	{
		"(ns n (:require ;\n\x10 ;\n;\n\x10\x12;\n))", "(ns n (:import ;\n\x10 ;\n;\n(\x10 B) ;\n))", "(ns n (:require [\x10 1] ;\n[\x10 2] ;\n;\n;\n[\x10 3];\n))", "(ns n (:use ;\n\x10 ;\n[\x10 :only [x ;\n]] ;\n))", "(ns n (:require [x :as a] ;\n;\n[y :as \x10] ;\n;\n)) \x10/x", "(ns n ;\n(:require ;\n[\x10 :as \x10 ;\n] ;\n[\x10 :refer ;\n[\x10 ;\n]]))", "(ns ;\nn ;\n;\n(:import ;\n) ;\n(:require ;\n) ;\n)", "(ns n (:require\n\n\n\x10\n\n\n;\n\n\n\x10\n\n\n))",
		"(ns n (:require ;;\x05\n\x10 ;;; \x05\n\x10;\x05\n))", "(ns n (:require [\x10 :refer [\x10\n\x10\n;\n]\n:as\n\x10\n]))", "(ns ^{:doc \"a\nb\"} n\n\"c\n d\"\n{:e f}\n(:require \x10\n\x10))", "(ns n (:require #?(:clj [\x10 :as \x10]\n:cljs [\x10 :as \x10])\n#?@(:clj [\x10 \x10])))", "(ns n #?(:clj (:require [\x10 :as x]\n\x10) :cljs (:require \x10)))", "(ns n (:require \x10)) (ns m (:require \x10\n\x10))", "(ns n (:require [\x10 :as \x10]) (:import [\x10 \x10\n\x10]) (:gen-class))", "(ns n (:require-macros [\x10 :refer [\x10]]\n\x10) (:use-macros [\x10 :only [\x10]]))",
		"(ns n (:require (\x10 [\x10 :as \x10]\n\x10) \x10))", "(ns n (:import (\x10 \x10 ;c\n\x10) \x10.\x10 [\x10\n\x10]))", "(ns n (:refer-clojure :exclude [\x10\n\x10]) (:require \x10))", "(ns n (:require '\x10 ['\x10 :as \x10] ~\x10))",
	},
	// 31: long heads, and heads of every style before elements of every kind
	{
		"(\x01\x01\x01\x01\x01\x01\x01\x01\x01 ;c\na\nb)", "(\x01\x01\x01\x01\x01\x01\x01\x01\x01\x01 ;c\na\nb)", "(\x01\x01\x01\x01\x01\x01\x01\x01\x01\x01\x01 ;c\na\nb)", "(\x01\x01\x01\x01\x01\x01\x01\x01\x01\x01\x01\x01 ;c\na\nb)", "(\x01\x01\x01\x01\x01\x01\x01\x01\x01\x01\x01\x01\x01 ;c\na\nb)", "(\x01\x01\x01\x01\x01\x01\x01\x01\x01\x01\x01\x01\x01\x01 ;c\na\nb)", "(\x01\x01\x01\x01\x01\x01\x01\x01\x01\x01\x01\x01\x01\x01\x01 ;c\na\nb)", "(\x01\x01\x01\x01\x01\x01\x01\x01\x01\x01\x01\x01\x01\x01\x01\x01 ;c\na\nb)",
		"(\x01\x01\x01\x01\x01\x01\x01\x01\x01 a\nb)", "(\x01\x01\x01\x01\x01\x01\x01\x01\x01\x01 a\nb)", "(\x01\x01\x01\x01\x01\x01\x01\x01\x01\x01\x01 a\nb)", "(\x01\x01\x01\x01\x01\x01\x01\x01\x01\x01\x01\x01 a\nb)", "(\x01\x01\x01\x01\x01\x01\x01\x01\x01\x01\x01\x01\x01 a\nb)", "(\x01\x01\x01\x01\x01\x01\x01\x01\x01\x01\x01\x01\x01\x01 a\nb)", "(\x01\x01\x01\x01\x01\x01\x01\x01\x01\x01\x01\x01\x01\x01\x01 a\nb)", "(\x01\x01\x01\x01\x01\x01\x01\x01\x01\x01\x01\x01\x01\x01\x01\x01 a\nb)",
		"(\x11\n(a\nb)\n(c\nd)\n(e\nf))", "(\x11 (a\nb)\n(c\nd)\n(e\nf))", "(\x11 a (b\nc)\n(d\ne))", "(\x11 a b (c\nd)\n(e\nf))", "(\x11 [(a\nb)\n(c\nd)] [(e\nf)\n(g\nh)])", "(\x11 ^m (a\nb)\n^m [(c\nd)\n(e\nf)])", "(\x11 {a\nb} #{c\nd} #(e\nf)\n'(g\nh))", "(\x11 a [(b\nc)\n(d\ne)]\n[(f\ng)])",
		"(\x11 (let\n[a\nb\nc\nd]\ne)\n(let\n[a\nb\nc\nd]\ne))", "(\x11 a\nb\nc\nd\ne\nf\ng\nh)", "(\x11\na\nb\nc\nd\ne\nf\ng\nh)", "(\x11 a b\nc d\ne f\ng h)", "(\x11 :a\nb\n:c\n:>>\nd\n:e\nf)", "(\x11 [a\nb\n:let\n[c\nd]\n:when\ne])", "(\x11 ;c\n[a\nb]\n;d\nc ;e\n;f\nd)", "(\x11 \"a\nb\"\nc \"d\ne\" f\ng)",
		"(\x11 #?(:a\nb\n:c\nd)\ne)", "(\x11 #_(a\nb)\n(c\nd) #_e\nf)", "#?(:a (\x11 b\nc)\n:d [\x11\ne])", "(\x11\n\n\na\n\n\nb\n\n;c\n\nd)", "(-> (\x11 a\nb\nc)\n(\x11 a\nb\nc))", "[(\x11 a\nb)\n(\x11\na)]", "(a/\x11 b\nc\nd)", "(a (b (\x11 (c\nd)\n(\x11 e\nf)) g\nh) i\nj)",
		"(\x11\t\ta\n\t\tb ,\n,c)",
		"(\x11 (a b\nc)\n(d e\nf)\n(g h\ni)\n(j k\nl))", "(\x11\n(a b\nc)\n(d e\nf)\n(g h\ni))", "(\x11 a (b c\nd)\n(e f\ng)\n(h i\nj))", "(\x11 [(a b\nc) (d e\nf)\n(g h\ni)]\n(j k\nl))", "(\x11 a [(b c\nd)]\n(e f\ng))", "(\x11 ^m (a b\nc)\n#t (d e\nf)\n'(g h\ni))", "#(\x11 (a b\nc)\n(d e\nf)\n(g h\ni))",
	},
	// 32: strings of several lines in forms of every name
	{
		"(def a \"x\n \x06y\" b)", "(def\x01 a \"x\n \x06y\" b)", "(def\x01\x01 a \"x\n \x06y\" b)", "(def\x01\x01\x01 a \"x\n \x06y\" b)", "(def\x01\x01\x01\x01 a \"x\n \x06y\" b)", "(def\x01\x01\x01\x01\x01 a \"x\n \x06y\" b)", "(def\x01\x01\x01\x01\x01\x01 a \"x\n \x06y\" b)", "(def\x01\x01\x01\x01\x01\x01\x01 a \"x\n \x06y\" b)",
		"(def\x01\x01\x01\x01\x01\x01\x01\x01 a \"x\n \x06y\" b)", "(def\x01\x01\x01\x01\x01\x01\x01\x01\x01 a \"x\n \x06y\" b)", "(def\x01\x01\x01\x01\x01\x01\x01\x01\x01\x01 a \"x\n \x06y\" b)", "(\x01 a \"x\n \x06y\" b)", "(\x01\x01 a \"x\n \x06y\" b)", "(\x01\x01\x01 a \"x\n \x06y\" b)", "(\x01\x01\x01\x01 a \"x\n \x06y\" b)", "(\x01\x01\x01\x01\x01 a \"x\n \x06y\" b)",
		"(\x01\x01\x01\x01\x01\x01 a \"x\n \x06y\" b)", "(\x01\x01\x01\x01\x01\x01\x01 a \"x\n \x06y\" b)", "(\x01\x01\x01\x01\x01\x01\x01\x01 a \"x\n \x06y\" b)", "(def\x01- a \"x\n \x06y\" b)", "(def\x01\x01- a \"x\n \x06y\" b)", "(def\x01\x01\x01- a \"x\n \x06y\" b)", "(def\x01\x01\x01\x01- a \"x\n \x06y\" b)", "(def\x01\x01\x01-\x01\x01\x01\x01\x01 a \"x\n \x06y\" b)",
		"(def\x01\x01\x01-\x01\x01\x01\x01\x01\x01 a \"x\n \x06y\" b)", "(def\x01\x01\x01-\x01\x01\x01\x01\x01\x01\x01 a \"x\n \x06y\" b)", "(\x11 a \"x\n \x06y\" b)", "(\x11 \"x\n \x06y\" b)", "(\x11 a b \"x\n \x06y\" c)", "(def\x05 a \"x\n \x06y\" b)", "(x/def a \"x\n \x06y\" b)", "(\x11 [a \"x\n \x06y\"] b)",
		"(\x11 (a \"x\n \x06y\") \"z\n \x06\")", "(:def a \"x\n \x06y\" b)", "[def a \"x\n \x06y\" b]", "#(def a \"x\n \x06y\" b)", "(defmulti a \"x\n \x06y\" b)(defn c \"d\n \x06\" [])",
	},
	// 33: texts that change little
	{
		"(a bcd\x02e)\n", "abc\n\x02d\n", "(ab c\n\x02d)\n", "(a b c\x02d \x02e)\n", "a b\x02\n", "(ab cd ef\x08)\n", ";abc\n\n\x04\x04d\n", "(defn f\x04[x]\x04y)\n",
	},
	// 34: names with overrides
	{
		"(\x7f [a\nb\x04:let [c\nd]]\n(e f\ng)\x04h\x04:>>\x04i\nj)", "(ns n (:require [x.a :as a] [x.b :refer [let]]))\n(\x7f [(a b\nc)\nd]\n(e f\ng)\x04h i\nj)", "(ns n (:require [x.a :refer [f let defz when-f]]))\n(\x7f ;c\n[a\nb]\n(e f\ng)\x04h)",
		"(ns n (:require [x.a :as b :refer (f)]) (:require-macros [x.b :as a]))\n#(\x7f\n[a\nb]\n(e f\ng)\x04h\x04i)", "(ns n (:require-macros [x.a :as c :refer-macros [defz case]]))\n(\x7f (a b\nc) [d e\nf]\n(\x7f g\nh)\x04i)",
		"(\x7f x (case y\nz) (\x7f v\nw)\n(condp t u\nv\nw))", "(\x7f x\n(\x7f y\nz\x04(case a\nb))\nc\n(case d\ne))", "(-> x (\x7f y\nz\x04(case a\nb))\nc\n(\x7f d\ne\nf))",
		"(a (\x7f b\nc\nd\ne\nf)\n[g\n(\x7f\nh\x04i)])",
	},
	// 35: names of the default table
	{
		"(\xff [a\nb\nc\nd]\ne\nf\ng)", "(\xff a\nb\n[c\nd]\n(e f\ng)\nh)", "(\xff [a\n(b c\nd) :let\n[e\nf]]\n(g h\ni)\nj)", "(\xff [(a [b]\nc)]\nd)", "(\xfe a b\nc)", "(\xff ;c\na b\nc\nd :>>\ne f\ng)",
	},
	// 36: thread-first forms in containers
	{
		"\x16(\x13 x (case a\nb\nc)) \x17", "\x16;d\n(-> x (case a\nb\nc))\x08a\x08\x17", "(f \x16(\x13 x (case a\nb\nc))\n\x17\nb)", "{a\x08(\x13 x (case a\nb\nc))\x08b}", "(-> x \x16\x08(case a\nb\nc)\x08\x17 (case a\nb\nc))", "\x16\x16(some-> x (condp a\nb\nc\nd))\x17 \x17",
	},
	// 37: long clauses
	{
		"(ns n (:require [c 0] [b 1] [\x10 2] [b 3] [a 4] [c 5] [b 6] [\x10 7] [b 8] [a 9] [b 10] [c 11] [a 12] [\x10 13] [b 14]))", "(ns n (:require [c :refer [x0]] [b :refer [x1]] [\x10 :refer [x2]] [b :refer [x3]] [a :refer [x4]] [c :refer [x5]] [b :refer [x6]] [\x10 :refer [x7]] [b :refer [x8]] [a :refer [x9]] [b :refer [x10]] [c :refer [x11]] [a :refer [x12]] [\x10 :refer [x13]] [b :refer [x14]]))", "(ns n (:use [c :only [x0]] [b :only [x1]] [\x10 :only [x2]] [b :only [x3]] [a :only [x4]] [c :only [x5]] [b :only [x6]] [\x10 :only [x7]] [b :only [x8]] [a :only [x9]] [b :only [x10]] [c :only [x11]] [a :only [x12]] [\x10 :only [x13]] [b :only [x14]]))", "(ns n (:import (c X0) (b X1) (\x10 X2) (b X3) (a X4) (c X5) (b X6) (\x10 X7) (b X8) (a X9) (b X10) (c X11) (a X12) (\x10 X13) (b X14)))", "(ns n (:require [n0 :as c0] [n1 :as b1] [n2 :as \x10] [n3 :as b3] [n4 :as a4] [n5 :as c5] [n6 :as b6] [n7 :as \x10] [n8 :as b8] [n9 :as a9] [n10 :as b10] [n11 :as c11] [n12 :as a12] [n13 :as \x10] [n14 :as b14]))\n(\x10/f b1/f c0/f #'a12/x)", "(ns n (:require ;e\n[c 0] ;c0\n[b 1] ;c1\n[\x10 2] ;c2\n[b 3] ;c3\n[a 4] ;c4\n[c 5] ;c5\n[b 6] ;c6\n[\x10 7] ;c7\n[b 8] ;c8\n[a 9] ;c9\n[b 10] ;c10\n[c 11] ;c11\n[a 12] ;c12\n[\x10 13] ;c13))",
	},
	// 38: line breaks that transforms move only after certain names
	{
		"(\xff f\x04[x]\x04a)", "(\xff f\x04:k\x04a\x04)", "(\xff a\x04b\x04c)", "\x04'(\xff [a\x04b]\x04c\x04d)", "(\xfe f\n[x] a)", "(\xfe a b\nc)",
	},
	// 39: any byte between pieces
	{
		"\xfd\x0e\xfd",
	},
	// 40: pieces in containers
	{
		"(\xfd\x04\xfd)", "[\xfd\xfd]", "{\xfd\x03\xfd}", "#{\xfd\x04\xfd}", "#(\xfd\x04\xfd)", "'\xfd\x04\xfd", "(\x11 \xfd\x04\xfd a\nb\nc)", "[\xfd\n\n\xfd\n]",
	},
	// 41: three pieces
	{
		"\xfd\xfd\xfd",
	},
	// 42: characters of several bytes before elements that are aligned
	{
		"(\x11 \x0b\x04b\nc)", "(a \"\x0b\" (b\x04c\nd))", "(a :\x0b (b c\nd)\ne)", "(\x0b b\nc)", "(a #\"\x0b\" (b c\nd))", "(a \\\x0b (b c\nd))", "(a #\x0b (b c\nd))", "(a #:\x0b{b c\nd e})", "(a #'\x0b (b c\nd))",
		"(a '\x0b @(b c\nd))", "(a [\x0b (b c\nd)\ne] f)", "(a \"b\n\x0bc\" (d e\nf))", "(a ::\x0b/b (b c\nd))", "(let [\x0b (b c\nd)\ne f] g)", "#?(:\x0b (b c\nd)\n:e f)", "(a #_\x0b ^\x0b (b c\nd))", "(\xe9\x8f\xa1 (\x0b b\nc)\nd)",
	},
	// 43: forms of every kind in the places that transforms and docstrings look at
	{
		"(defn f\x12\xfb\x12\xfb a)", "(defmethod f\x12\xfb\x12\xfb a)", "(if \xfb\x04\xfb\x04a)", "(if a\x04b\x04\xfb)", "(def \xfb \"x\n y\" \xfb)", "(ns n \xfb\x04\xfb)", "(ns n (:require \xfb\x04\xfb))", "(\x11 \xfb\n\xfb\n)", "(let [\xfb\x04\xfb\na] b)",
	},
	// 44: carriage returns and line breaks in literals
	{
		"\"a\xfc\"", "\"\xfc\xfc\" a", "(a #\"\xfc\xfc\"\nb)", "(def a \"x\xfc\xfcy\" 1)", "(def a \"x\n \xfc y\" 1)", ";a\xfc\xfcb", "(a\xfcb\xfcc)", "#!a\xfcb", "\\a\xfcb", "(a ;b\xfc\xfcc)",
	},
	// 45: clauses that end in forms of every kind
	{
		"(ns n (:require a \xfb))", "(ns n (:require \xfb a \xfb))", "(ns n (\x14 a \xfb))", "(ns n (:require [\xfb]\n(\xfb)))", "(ns n (:use [a \xfb]\n\xfb))", "(ns n (:import (\xfb) [\xfb]\n))", "(ns n (:require [a :as \xfb]\n[b :refer \xfb]))\na/b", "(ns n (:require [a :refer [b \xfb]]))\n\xfb", "(ns n (:require [a :as b]\n\xfb))\n\xfb", "(ns \xfb (:require \xfb))", "(ns n \xfb)", "(ns \xfb)",
	},
	// 46: strings in forms in each other
	{
		"(def a \"x\" [(def b \"y\n   z\x06\" 1)])", "(def a \"x\n y\x06\" (def b \"y\n   z\x06\" 1))", "(def a (def b \"y\n   z\x06\" 1) \"y\n  z\")", "(defn a \"x\n y\x06\" [] (let [b (def c \"z\n   d\x06\" 1)] \"e\n   f\"))", "(def (def a \"x\n y\x06\" 1) \"y\n   z\x06\" 1)", "(def a \"b\" \"x\n    \x06y\" 1)", "(do (def a \"x\n    \x06y\" 1) (def b \"x\n    \x06y\" 1))", "[(def a \"x\n    \x06y\" {b (def c \"x\n    \x06y\" 1)})]", "(def a [\"x\n    \x06y\"] 1)", "(ns a \"x\n    \x06y\" (:require [b \"x\n    \x06y\"]))",
		"(ns a \"x\" \"b\n    \x06y\" (:require b))", "(defmacro a \"x\n    \x06y\" ([] \"x\n    \x06y\" 1))", "(defprotocol a \"x\n    \x06y\" (b [c] \"x\n    \x06y\"))", "(defmulti a \"x\n    \x06y\" \"x\n    \x06y\")", "(def a #_\"x\n    \x06y\" \"x\n    \x06y\" 1)", "(def a '\"x\n    \x06y\" 1)", "#(def a \"x\n    \x06y\" 1)", "#_(def a \"x\n    \x06y\" 1)", "#?(:clj (def a \"x\n    \x06y\" 1))", "(def a ^{:b \"x\n    \x06y\"} \"x\n    \x06y\" 1)",
	},
}
