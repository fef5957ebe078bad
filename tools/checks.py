"""The registry of checks: which explorations decide which property."""
import os, sys
import lgbuild

VERIF = lgbuild.VERIF
CHECKS = {}


def argv(job):
    """build what the job needs from /repo's working tree and return its command"""
    if "py" in job:
        a = [sys.executable, os.path.join(VERIF, "harness", job["py"])]
    else:
        a = [lgbuild.harness(job.get("variant", "opt"), job["h"], ld=job.get("ld", ()), cmd=job.get("cmd", False))]
    for k, v in job.get("args", {}).items():
        a.append("%s=%s" % (k, v))
    for b in job.get("needs", ()):
        a.append("%s=%s" % (b, getattr(lgbuild, b)()))
    return a


def job(name, h=None, bounds="", **kw):
    j = {"name": name, "bounds": bounds}
    if h:
        j["h"] = h
    j["args"] = {}
    for k in list(kw):
        if k in ("shards", "variant", "env", "mem", "py", "needs", "ld", "cmd"):
            j[k] = kw[k]
        else:
            j["args"][k] = kw[k]
    return j


def check(pid, title, jobs, rule, assumptions=(), level="model_checking"):
    CHECKS[pid] = {"title": title, "jobs": jobs, "rule": rule, "assumptions": list(assumptions), "level": level}


UMAX = 4294967295


def p01(tier):
    js = [
        job("ast", "sem", "all pattern ASTs of 1..6 nodes over {a,b} and 12 quantifiers x all texts over {a,b,c}^<=4 and {a,b}^5..6", lo=1, size=6),
        job("ast-class", "sem", "all ASTs of 1..5 nodes over {a,b,.,[ab],[^a]}, texts also with newline and bytes >= 0x7f", leaves="dot", lo=1, size=5),
        job("ast-nfa", "sem", "all ASTs of 1..5 nodes, no determinization", lo=1, size=5, depth=0),
        job("ast-dfa", "sem", "all ASTs of 1..5 nodes, full determinization", lo=1, size=5, depth=UMAX),
        job("reps", "sem", "all groups of three of 12 quantified letters and (a{0}|b), in sequence or alternatives, under 7 quantifiers, followed by nothing or a letter, texts {a,b}^<=%d" % (8 if tier == "thorough" else 6), mode="reps", n=8 if tier == "thorough" else 6),
        job("families", "sem", "repetition counts, literal lengths and alternation widths 1..%d" % (300 if tier == "thorough" else 150), mode="fam", N=300 if tier == "thorough" else 150),
        job("ast-long", "sem", "all ASTs of 1..4 nodes x all texts {a,b,c}^<=6, {a,b}^7..9", lo=1, size=4, n3=6, n=9),
        job("alts3", "multi", "all alternations of 3 strings over {a b .} of length 1..3, texts {a,b}^<=6", mode="seq", len=1, k=1, els="a|b|.", alt=3, arity=3),
        job("alts4", "multi", "all alternations of 4 strings over {a b} of length 1..3", mode="seq", len=1, k=1, els="a|b", alt=3, arity=4),
        job("altsq", "multi", "all alternations of 3 of {a b a? b+ b*?}^1..2", mode="seq", len=1, k=1, els="a|b|a?|b+|b*?", alt=2, arity=3),
    ]
    if tier == "thorough":
        js += [job("ast7", "sem", "all ASTs of exactly 7 nodes over {a,b} and 12 quantifiers", lo=7, size=7),
               job("reps3", "sem", "the same under 6 more quantifiers", mode="reps", q3=1, n=7),
               job("reps-nfa", "sem", "the same, no determinization", mode="reps", n=6, depth=0),
               job("ast6-nfa", "sem", "all ASTs of 6 nodes, no determinization", lo=6, size=6, depth=0),
               job("ast6-dfa", "sem", "all ASTs of 6 nodes, full determinization", lo=6, size=6, depth=UMAX),
               job("ast-abc", "sem", "all ASTs of 6 nodes over {a,b,c}, 6 quantifiers", lo=6, size=6, leaves="abc", nq=6),
               job("ast6-class", "sem", "all ASTs of 6 nodes over {a,b,.,[ab],[^a]}, 6 quantifiers", leaves="dot", lo=6, size=6, nq=6)]
    return js


check("P01", "single-pattern semantics", p01,
      "every pattern (AST) of the bounded alphabet is compiled by the real code and run on every text of the bounded set; the complete hit list "
      "must equal the reference's. states = patterns, transitions = searches, traces = searches with at least one hit (non-trivial)",
      ["the reference matcher (harness/refre.h) denotes Perl's backtracking semantics; bounded repetitions are sugar for copies and an empty iteration ends an unbounded loop",
       "semantics depends on byte values only through byte-set membership, which P11-P13 explore separately"])


def p02(tier):
    js = [
        job("pairs", "multi", "all ordered pairs from the pool of all non-nullable ASTs of <= 4 nodes (6 quantifiers), texts {a,b,c}^<=3, {a,b}^4..6", mode="tuple", size=4, k=2),
        job("triples", "multi", "all ordered triples from the pool of ASTs of <= 3 nodes", mode="tuple", size=3, k=3),
        job("triples-nfa", "multi", "all ordered triples, <= 3 nodes, every 2nd, no determinization", mode="tuple", size=3, k=3, depth=0, stride=2),
        job("quads", "multi", "all ordered 4-tuples from every 4th of that pool", mode="tuple", size=3, k=4, stride=4, n=5),
        job("seq", "multi", "all ordered pairs of concatenations of 1..3 of {a . a* .* a+ a*? .? a+?}, texts {a,b}^<=6", mode="seq", len=3, els="a|.|a*|a+?|a+|.*|a*?|.?"),
        job("seqab", "multi", "all ordered pairs of concatenations of 1..3 of {a b a?? a? b+}, texts {a,b}^<=6", mode="seq", len=3, els="a|b|a??|a?|b+"),
        job("alts", "multi", "all ordered pairs of {a b a? a??}^1..2 and alternations of two of them", mode="seq", len=2, alt=2, els="a|b|a?|a??"),
        job("alts3", "multi", "all ordered pairs of alternations of 3 strings over {a b} of length 1..2", mode="seq", len=1, els="a|b", alt=2, arity=3),
        job("words", "multi", "all ordered triples of strings over {a b .} of length 1..3", mode="seq", len=3, els="a|b|.", k=3),
        job("mixed", "multi", "all ordered pairs of 5 patterns x 3 encodings x case modes, texts {a,A,b,NUL}^<=5", mode="mixed", k=2, n=5),
        job("many", "multi", "2..4097 keywords around powers of two", mode="many"),
    ]
    if tier == "thorough":
        js += [job("pairs5", "multi", "all ordered pairs from every 7th AST of <= 5 nodes", mode="tuple", size=5, k=2, stride=7),
               job("triples4", "multi", "all ordered triples from every 3rd of <= 4 nodes", mode="tuple", size=4, k=3, stride=3, n=5),
               job("seq12", "multi", "all ordered pairs of concatenations of 1..3 of 12 quantified leaves, texts {a,b}^<=7", mode="seq", len=3, els="a|.|a*|a+?|a+|.*|a*?|.?|.+|.*?|b|.??", n=7),
               job("seq4", "multi", "all ordered pairs of every 3rd concatenation of 1..4 of 8 quantified leaves", mode="seq", len=4, els="a|.|a*|a+?|a+|.*|a*?|.?", stride=3),
               job("words4", "multi", "all ordered 4-tuples of strings over {a b} of length 1..3 and triples over {a b .} to length 4", mode="seq", len=3, els="a|b", k=4),
               job("seqab4", "multi", "all ordered pairs of every 2nd concatenation of 1..4 of {a b a?? a? b+}", mode="seq", len=4, els="a|b|a??|a?|b+", stride=2),
               job("mixed3", "multi", "all ordered triples mixed", mode="mixed", k=3, n=4),
               job("many-big", "multi", "to 65537 keywords", mode="many", big=1)]
    return js


check("P02", "keyword independence", p02,
      "every ordered tuple of keywords from the pool is compiled into one program and run on every text; the hits of each keyword must be those the reference "
      "gives for the keyword alone. states = programs, transitions = searches, traces = searches in which at least two keywords hit",
      ["reference semantics as in P01"])


def p03(tier):
    js = [
        job("small", "stream", "every AST of <= 5 nodes (6 quantifiers); every text {a,b,c}^<=3, {a,b}^4..7; every one of the 2^(n-1) divisions into buffers, with start offsets up to 2^63 and with empty buffers interleaved", mode="chunk", pool="small", size=5, n=7),
        job("small-nfa", "stream", "the same, no determinization", mode="chunk", pool="small", size=5, n=6, depth=0),
        job("long", "stream", "63 sets of longer patterns (start filter, long lookahead), every text to {a,b}^9, every division", mode="chunk", pool="long", n=9),
        job("many", "stream", "81 sets of 3..1025 keywords (words over {a,b}, some quantified; three orders), texts {a,b}^<=5, every division", mode="chunk", pool="many", max=1025, n3=0, n=5),
        job("far", "stream", "hits after 254 .. 2^20+1 (the shortest: 2^24+3) other bytes, and hits that long, cut at their ends; every AST of <= 4 nodes", mode="far", pool="small", size=4, n=3),
        job("far-long", "stream", "the same, longer patterns", mode="far", pool="long", n=4),
        job("pairs", "stream", "all ordered pairs of ASTs of <= 3 nodes, every division", mode="chunk", pool="pairs", size=3, n=6),        job("seqpairs", "stream", "all ordered pairs of concatenations of 1..3 of {a . a* a+?}, every division of {a,b}^<=6", mode="chunk", pool="seqpairs", els="a|.|a*|a+?", n3=0, n=6),
    ]
    if tier == "thorough":
        js += [job("small6", "stream", "every AST of <= 6 nodes, every division of every text to {a,b}^8", mode="chunk", pool="small", size=6, n=8),
               job("long11", "stream", "longer patterns, texts to {a,b}^11", mode="chunk", pool="long", n=11),
               job("small-dfa", "stream", "full determinization", mode="chunk", pool="small", size=5, n=8, depth=UMAX),
               job("pairs8", "stream", "pairs, texts to {a,b}^8", mode="chunk", pool="pairs", size=3, n=8)]
    return js


check("P03", "chunking and offset invariance", p03,
      "every division of every bounded text into consecutive buffers is searched by the real code with exact-size buffers that are overwritten and freed after the call; the hits must be those of "
      "the undivided text. states = programs, transitions = search calls, traces = (program, text, division) histories",
      ["reference semantics as in P01"])


def p04(tier):
    js = [
        job("small", "stream", "every AST of <= 5 nodes; every prefix {a,b,c}^<=3,{a,b}^4..6 whole and in two buffers x every continuation {a,b}^<=4; then resolve with every even cut", mode="ret", pool="small", size=5),
        job("long", "stream", "longer patterns, prefixes to {a,b}^7, continuations to {a,b}^5", mode="ret", pool="long", n=7, d=5),
        job("many", "stream", "78 sets of 3..513 keywords (words over {a,b}, some quantified; three orders), prefixes to {a,b}^3, continuations to {a,b}^3", mode="ret", pool="many", max=513, n3=0, n=3, d=3),
        job("pairs", "stream", "all ordered pairs of ASTs of <= 3 nodes, prefixes to {a,b}^4", mode="ret", pool="pairs", size=3, n=4),
    ]
    if tier == "thorough":
        js += [job("small6", "stream", "every AST of <= 6 nodes", mode="ret", pool="small", size=6, n=5),
               job("long9", "stream", "longer patterns, prefixes to 8, continuations to 7", mode="ret", pool="long", n=8, d=7),
               job("small-nfa", "stream", "no determinization", mode="ret", pool="small", size=5, depth=0)]
    return js


check("P04", "search's return value and resolving", p04,
      "for every (program, prefix) the value returned is compared with the starts of all hits that any continuation of the bounded set completes; resolve must report exactly the hits that started before it. "
      "states = programs, transitions = search/resolve calls, traces = (program, prefix, division) whose whole continuation set was explored",
      ["a hit already fully determined but not yet reported does not count (as the project's own tests require)"])


def p05(tier):
    js = [
        job("small", "stream", "every AST of <= 5 nodes x every text {a,b,c}^<=3,{a,b}^4..6 x 7 start offsets; and after every unfinished search of {a,b}^<=3", mode="starts", pool="small", size=5),
        job("small-nfa", "stream", "no determinization", mode="starts", pool="small", size=5, depth=0),
        job("long", "stream", "longer patterns (start filter), texts to {a,b}^8", mode="starts", pool="long", n=8),
        job("many", "stream", "81 sets of 3..1025 keywords (words over {a,b}, some quantified; three orders), texts {a,b}^<=6", mode="starts", pool="many", max=1025, n3=0, n=6),
        job("pairs", "stream", "all ordered pairs of ASTs of <= 4 nodes, every 2nd", mode="starts", pool="pairs", size=4, stride=2, n=5),
    ]
    if tier == "thorough":
        js += [job("small6", "stream", "every AST of <= 6 nodes, texts to 8", mode="starts", pool="small", size=6, n=8),
               job("pairs4", "stream", "all ordered pairs of ASTs of <= 4 nodes", mode="starts", pool="pairs", size=4, n=6),
               job("small-q12", "stream", "12 quantifiers, <= 5 nodes", mode="starts", pool="small", size=5, nq=12, n=7)]
    return js


check("P05", "anchored search", p05,
      "the hits of the real anchored search must be, per keyword, the reference's match at the first byte, also directly after an unfinished search of any bounded text. "
      "states = programs, transitions = calls, traces = calls with at least one hit",
      ["reference semantics as in P01"])


def p06(tier):
    js = [
        job("small", "stream", "all histories of 5 operations (search, closeout, reset, anchored search, recreate) over two contexts of one program, for every AST of <= 4 nodes", mode="life", pool="small", size=4, ops=5),
        job("many", "stream", "all histories of 4 operations, 78 sets of 3..513 keywords (words over {a,b}, some quantified; three orders)", mode="life", pool="many", max=513, ops=4),
        job("pairs", "stream", "all histories of 4 operations, all pairs of ASTs of <= 3 nodes", mode="life", pool="pairs", size=3, ops=4),
        job("long", "stream", "all histories of 5 operations, longer patterns", mode="life", pool="long", ops=5),
    ]
    if tier == "thorough":
        js += [job("small6", "stream", "all histories of 6 operations, ASTs of <= 3 nodes", mode="life", pool="small", size=3, ops=6),
               job("long6", "stream", "all histories of 6 operations, longer patterns", mode="life", pool="long", ops=6),
               job("small-nfa", "stream", "no determinization, 5 operations", mode="life", pool="small", size=4, ops=5, depth=0)]
    return js


check("P06", "search context life cycle", p06,
      "every bounded history of operations on two contexts sharing one program is run on the real code; each context must behave as a fresh one fed the text since its last reset. "
      "states = programs, transitions = operations executed, traces = histories ending in a closeout with hits",
      ["searching on after a closeout without a reset is undefined and not explored"])


def p08(tier):
    js = [
        job("small", "progs", "every AST of <= 3 nodes: every buffer alignment, oversized buffers, and every proper prefix of the image, against unmapped and read-only memory", mode="ser", pool="small", size=3),
        job("small-4", "progs", "every AST of <= 4 nodes, 12 quantifiers, every alignment", mode="ser", pool="small", size=4, nq=12, prefixes=0),
        job("long", "progs", "702 sets of one or two longer patterns", mode="ser", pool="long", prefixes=0, n=7),
        job("many", "progs", "75 sets of 3..513 keywords (words over {a,b}, some quantified; three orders), texts {a,b}^<=6", mode="ser", pool="many", max=513, prefixes=0, n3=0, n=6),
        job("ranges", "progs", "pairs of byte-range patterns (jump tables, bit vectors)", mode="ser", pool="ranges", prefixes=0, stride=150),
        job("infos", "progs", "pairs of patterns x encoding chains x user indices; 1..65537 patterns", mode="ser", pool="infos", n=4),
        job("nfa", "progs", "ASTs of <= 4 nodes, no determinization", mode="ser", pool="small", size=4, prefixes=0, depth=0),
    ]
    if tier == "thorough":
        js += [job("small5", "progs", "every AST of <= 5 nodes, every proper prefix", mode="ser", pool="small", size=5),
               job("pairs", "progs", "all pairs of ASTs of <= 3 nodes", mode="ser", pool="pairs", size=3, prefixes=0),
               job("ranges-all", "progs", "pairs of byte-range patterns", mode="ser", pool="ranges", prefixes=0, stride=20),
               job("dfa", "progs", "full determinization", mode="ser", pool="small", size=5, prefixes=0, depth=UMAX)]
    return js


check("P08", "program serialization", p08,
      "every program of the pool is written into a buffer of exactly the stated size, read back at every alignment after the original is destroyed, searched, described and re-written; every proper prefix of the image is offered to the reader. "
      "states = programs, transitions = searches of original and read-back programs, traces = searches of a read-back program with hits",
      ["damage other than truncation is not claimed (the format carries no checksum)"])


def p09(tier):
    js = [
        job("small", "progs", "every AST of <= 5 nodes (12 quantifiers) at 17 determinization depths from none to full, texts {a,b,c}^<=3,{a,b}^4..6", mode="depth", pool="small", size=5, nq=12),
        job("pairs", "progs", "all ordered pairs of ASTs of <= 3 nodes at 17 depths", mode="depth", pool="pairs", size=3),
        job("triples", "progs", "all ordered triples of every 2nd AST of <= 3 nodes", mode="depth", pool="triples", size=3, stride=2, n=5),
        job("long", "progs", "702 sets of longer patterns, texts to {a,b}^8", mode="depth", pool="long", n=8),
        job("many", "progs", "69 sets of 3..300 keywords (words over {a,b}, some quantified; three orders), 17 depths, texts {a,b}^<=6", mode="depth", pool="many", max=300, n3=0, n=6),
        job("ranges", "progs", "392 patterns over overlapping byte ranges and every 37th pair of them, texts {a,b,h,z}^<=4", mode="depth", pool="ranges", stride=37),
    ]
    if tier == "thorough":
        js += [job("ranges-all", "progs", "every 3rd pair of byte-range patterns", mode="depth", pool="ranges", stride=3),
               job("small6", "progs", "every AST of <= 6 nodes", mode="depth", pool="small", size=6),
               job("triples-all", "progs", "all triples of ASTs of <= 3 nodes", mode="depth", pool="triples", size=3),
               job("pairs4", "progs", "all pairs of ASTs of <= 4 nodes", mode="depth", pool="pairs", size=4, n=5)]
    return js


check("P09", "determinization invariance", p09,
      "every keyword set of the pool is compiled at 17 determinization depths and every program is run on every text; all must give the hits of the undeterminized one, which must be the reference's. "
      "states = programs, transitions = searches, traces = searches of a determinized program with hits",
      ["reference semantics as in P01"])


def p16(tier):
    js = [job("hist5", "progs", "all histories of 5 operations over a pattern handle and two FSMs (parse 5 sources incl. malformed and empty-matching, add in 3 encodings incl. unknown, make programs at 2 depths, destroy, renew)", mode="hist", ops=5),
          job("hist6", "progs", "all histories of 6 operations", mode="hist", ops=6)]
    if tier == "thorough":
        js += [job("hist7", "progs", "all histories of 7 operations", mode="hist", ops=7), job("hist7-one", "progs", "all histories of 7 operations with one FSM", mode="hist", ops=7, two=0)]
    return js


check("P16", "build histories", p16,
      "every bounded history of the building API is run on the real code beside a model holding, per FSM, the list of keywords added and, per program, the list at its creation; indices, counts and descriptions are compared after every operation and, at the end, every program's hits on every text. "
      "states = complete histories, transitions = API operations, traces = histories which made at least one program",
      ["adding from a pattern handle whose last parse failed (or which never parsed) is undefined and not explored"])


def p10(tier):
    t = tier == "thorough"
    js = [
        job("plain", "syntax", "all strings of 1..5 characters over a b ( ) | * + ? { } , 1 2 . \\", mode="plain", n=5),
        job("tokens", "syntax", "all sequences of 1..5 of a b ( ) | * +? ?? {2} {0,1}? [^a] .", mode="tokens", n=5),
        job("class", "syntax", "all strings of 1..%d characters over [ ] ^ - a ! c \\ & ~ *" % (6 if t else 5), mode="class", n=6 if t else 5),
        job("flags", "syntax", "all strings of 1..6 characters over ( ? a i - ) | B *, with and without the case-insensitive option", mode="flags", n=6),
        job("escape", "syntax", "backslash and every byte in 5 contexts; all escapes over 18 characters; every octal and hexadecimal value to 4095 and the limits of Unicode", mode="escape", n=4 if t else 3),
        job("counts", "syntax", "all repetition bounds 0..12 in 8 contexts, leading zeros, bounds around 2^31, 2^32, 2^63, 2^64", mode="counts"),
        job("big", "syntax", "nesting to 2047, lengths to 2999", mode="big"),
        job("bytes", "syntax", "all byte sequences of 1..2 and those of 3 ending in one of 6 bytes, in 8 contexts, fixed and not", mode="bytes"),
        job("fixed", "syntax", "every string of 1..%d of 16 metacharacters and letters as a fixed string" % (5 if t else 4), mode="fixed", n=5 if t else 4),
    ]
    if t:
        js += [job("plain6", "syntax", "all strings of 6 characters", mode="plain", lo=6, n=6),
               job("tokens6", "syntax", "all sequences of 6 tokens", mode="tokens", lo=6, n=6),
               job("flags7", "syntax", "all strings of 7 characters", mode="flags", lo=7, n=7)]
    return js


check("P10", "pattern language", p10,
      "every string of the bounded alphabet is given to the real parser (as a string and as a slice of a longer one) and an independent recursive-descent parser of the documented grammar; both must accept or reject it, "
      "a rejection must carry a message and name the pattern and change nothing, and an accepted pattern must match 13 texts as the reference parse does. states = strings, transitions = parses, additions and searches, traces = searches with hits",
      ["strings whose meaning the documentation leaves open (stray braces, a hyphen next to a class or operator, an empty negated class, unknown escapes) are parsed but not judged: counted as unspecified",
       "a global flag after an alternation may be rejected"])


def p11(tier):
    t = tier == "thorough"
    js = [
        job("named", "chars", "\\d \\s \\w \\h \\v and their complements, alone, in classes and in negated classes, in ASCII and Unicode mode, with and without case, over all 1,112,064 characters", mode="named"),
        job("props", "chars", "every binary property and every value of every enumerated property ICU knows%s, positive and negative, over all characters" % (" under all names" if t else ""), mode="props", all=1 if t else 0),
        job("charnames", "chars", "every named character of Unicode, and its name with a letter missing", mode="charnames", step=1),
        job("exprs", "chars", "all set expressions of 1..%d of 12 operands joined by union, &&, --, ~~, negated or not, 4 option combinations, over ~700 characters" % (3 if t else 2), mode="exprs", n=3 if t else 2),
        job("exprs3", "chars", "all set expressions of 3 of 7 operands", mode="exprs", n=3, ops=7),
        job("breakout", "chars", "all classes of 1..3 of 9 characters, ranges and raw bytes in 4 encodings, over all one-, two- and four-byte sequences that could match", mode="breakout", n=3 if t else 2),
        job("scope", "chars", "all sequences of 1..4 of 11 tokens with switches (?i) (?-i) (?a) (?-a), groups and alternation, texts of 1..2 of 6 characters", mode="scope", n=5 if t else 4),
    ]
    return js


check("P11", "character classes", p11,
      "the set of characters each pattern matches is read off one search by the real code of a text holding every character, and compared character by character with ICU's own per-character data. "
      "states = patterns, transitions = searches, traces = patterns that match something",
      ["the installed ICU is the authority on Unicode data; the complement of an empty class, and negation of a nested class with raw bytes, are not specified"])


def p12(tier):
    t = tier == "thorough"
    js = [
        job("cased", "chars", "every character of every block with case (and all below U+0300), as literal, class, fixed string and negated class, in ASCII and Unicode mode, against every cased character of Unicode", mode="icase", cased=1, hi=1114112),
        job("scope", "chars", "all sequences of 1..4 of 11 tokens with switches (?i) (?-i) (?a) (?-a), groups and alternation", mode="scope", n=4),
        job("exprs", "chars", "all set expressions of 1..2 of 12 operands, with and without case, over ~700 characters closed under case", mode="exprs", n=2),
        job("named", "chars", "the named sets, with and without case", mode="named"),
    ]
    if t:
        js += [job("all", "chars", "every character of Unicode", mode="icase", hi=1114112),
               job("scope5", "chars", "all sequences of 5 tokens", mode="scope", n=5),
               job("exprs3", "chars", "all set expressions of 3 operands", mode="exprs", n=3)]
    return js


check("P12", "case-insensitivity", p12,
      "each pattern is compiled case-insensitively by the real code and run on every character that has case anywhere in Unicode; it must match exactly the characters whose full case folding is the same. "
      "states = patterns, transitions = searches, traces = patterns that match",
      ["ICU's u_strFoldCase is the authority on case folding; in ASCII mode the letters a-z correspond only to A-Z, while other characters keep their full folding"])


def p13(tier):
    t = tier == "thorough"
    js = [
        job("names", "enc", "every encoding name and alias the library and ICU know, in three spellings of case; and names of none", mode="names"),
        job("full", "enc", "any-character and not-a in every encoding: the whole tree of byte prefixes", mode="full"),
        job("lits", "enc", "every code point as a literal in every encoding (in Unicode encodings, the blocks around the limits)", mode="lits"),
        job("ranges", "enc", "all ranges between 37 boundary characters in UTF-8, the whole byte-prefix tree", mode="ranges", pairs=0, triples=0, enc="UTF-8"),
        job("ranges16", "enc", "all ranges between 30 boundary characters in UTF-16LE", mode="ranges", pairs=0, triples=0, enc="UTF-16LE"),
        job("triples", "enc", "all triples of 12 boundary characters (surrogates included) in the five Unicode encodings", mode="ranges", single=0, pairs=0, triples=0, tri=1),
        job("cjk", "enc", "ranges and scattered triples over 8 characters of every multi-byte encoding", mode="cjk", K=8),
    ]
    if t:
        js += [job("lits-all", "enc", "every code point in every encoding, as pattern and fixed string", mode="lits", all=1, fixed=1),
               job("full32", "enc", "UTF-32LE", mode="full", le32=1, enc="UTF-32LE"),
               job("ranges-all", "enc", "ranges, pairs of ranges and triples of characters in the five Unicode encodings", mode="ranges", full=1),
               job("cjk12", "enc", "12 characters", mode="cjk", K=12)]
    return js


check("P13", "encodings", p13,
      "the language of byte sequences that each class program accepts is explored byte prefix by byte prefix on the real code (liveness of a search tells whether a prefix can still match); it must be exactly "
      "the encodings of the class's characters as ICU's converter gives them. states = classes, transitions = bytes searched, traces = accepted sequences",
      ["ICU's converters are the authority for the encodings it supplies; one-way mappings (gb18030 A3A0, U+E5E5) and surrogates in ICU encodings are not specified"])


def p14(tier):
    t = tier == "thorough"
    js = [job("chains", "enc", "all sequences of 1..%d of 12 transformation and encoding names (known, unknown, wrong kind, wrong case)" % (5 if t else 4), mode="chains", n=5 if t else 4)]
    return js


check("P14", "transformation chains", p14,
      "every bounded sequence of names is offered to the real code, which must accept exactly those of the documented form; an accepted chain's programs must match exactly the bytes obtained by applying the "
      "character transformations, the encoding and the byte transformations in order. states = chains, transitions = bytes searched, traces = accepted sequences",
      ["the OCE permutation is given by its published table"])


def p15(tier):
    t = tier == "thorough"
    js = [
        job("window", "window", "all byte strings to length %s over 3-8 bytes chosen per encoding (18 encodings and chains), every hit window in them, leading and trailing context of 0, 1, 2, 6 each, buffers against unmapped memory" % ("5-7" if t else "4-6"), mode="window", len=0 if t else -1),
        job("decode", "enc", "every character of every encoding, plain and through OCE", mode="decode"),
    ]
    if t:
        js += [job("window-long", "window", "UTF-8 strings to length 6", mode="window", len=1, ei=1),
               job("window-asan", "window", "shorter strings under AddressSanitizer", mode="window", len=-2, variant="asan", mem=0)]
    return js


check("P15", "decoding hits and context", p15,
      "every window of every bounded byte string is decoded by the real code and compared with an independent step-by-step decoder: the hit and what follows exactly, the leading context by the documented preference "
      "(longest valid run next to the hit, then fewest bad bytes), the number of bad values, and the string form. states = byte strings, transitions = calls, traces = windows with undecodable bytes (windows mode) or characters decoded",
      ["in a chain with a byte transformation a bad byte's value may be given before or after the transformation", "stateful encodings are not explored beyond single characters"])


def p17(tier):
    t = tier == "thorough"
    js = [job("lists", "lists", "all sequences of up to 2 of 18 line kinds in all 360 combinations of terminators, default encodings, default options, error pointer, source, earlier patterns; "
              "all sequences of 3%s, each in every 31st combination" % (" and 4" if t else ""), n=4 if t else 3, full=2)]
    if t:
        js.append(job("lists-asan", "lists", "sequences of up to 2 under AddressSanitizer", n=2, full=1, variant="asan", mem=0))
    return js


check("P17", "pattern lists", p17,
      "every bounded list of lines is given to the real lg_add_pattern_list and must leave what parsing and adding the lines' patterns one at a time leaves: return value, the list of errors field by field, the "
      "patterns' descriptions, and the hits of the program. states = sequences of lines, transitions = patterns added or refused, traces = hits compared",
      ["column order is pattern, encodings, fixed string, case-insensitive, Unicode (the header's names for the last two are out of date)", "empty columns and empty names in an encoding list are not specified"])


def p07(tier):
    t = tier == "thorough"
    return [
        job("pairs", "conc", "all 65 pairs of 11 thread bodies, every schedule", k=2, variant="acc", mem=0),
        job("triples", "conc", "all 275 triples of thread bodies, every schedule with at most %d preemptions" % (3 if t else 1), k=3, preempt=3 if t else 1, max=200000, variant="acc", mem=0),
    ]


check("P07", "concurrent use", p07,
      "real threads run the real code, instrumented so that every load, store and synchronisation operation is seen, under a scheduler which enumerates every order of the synchronisation operations; two unordered "
      "conflicting accesses are a violation (so orders of plain accesses need not be enumerated), as is any thread observing what it would not observe alone. states = combinations of threads, transitions = scheduling "
      "points passed, traces = schedules",
      ["sequentially consistent atomics", "inside ICU and the C library nothing is seen; they are taken to be thread-safe", "each schedule runs in a fresh process, so once-only initialisation is explored too"])


def p19(tier):
    t = tier == "thorough"
    return [
        job("blocks", "cli", "all texts {a,b}^<=%d as files and standard input, every block size, read and mapped, for all patterns of <= %d nodes%s, 26 longer ones and 26 triples" % (7 if t else 6, 4 if t else 3, "" if t else ", every other"), mode="blocks", size=4 if t else 3, stride=1, n=7 if t else 5, cmd=True),
        job("sched", "cli", "all orders of reads and searches of up to %d blocks, texts {a,b}^%d" % ((6, 6) if t else (4, 4)), mode="sched", size=2, n=6 if t else 4, cmd=True),
        job("args", "cli", "combinations of 7 ways of giving patterns, -i, -F, 4 sets of encodings, 16 ways of giving inputs, -H/-h, output, --mmap, block sizes" + ("" if t else " (two sub-products)"), mode="args", full=int(t), cmd=True),
        job("bad", "cli", "all sets of up to 3 of 21 options, good and bad", mode="bad", cmd=True),
    ]


check("P19", "command-line searches", p19,
      "the command's own code is run, in a child process, on every case of the bounded space, and what it prints is compared with the reference matcher's (or the library's whole-buffer) hits. In sched, the reading thread and the "
      "search are made to take every order. states = cases, transitions = runs of the command, traces = lines of output compared",
      ["tabs and newlines in patterns or paths, unreadable or missing inputs, and links are not specified", "the order in which a directory's files are searched is not specified"])


def p20(tier):
    t = tier == "thorough"
    return [
        job("context", "cli", "all texts {a,b,newline,return}^<=%d and 6 others, contexts of none or 0..3 lines before and after (a text of 600 lines: 17 larger numbers), 11 pattern sets, 2 encodings, with and without paths, histogram, small blocks" % (6 if t else 4), mode="context", n=6 if t else 4, cmd=True),
        job("hist", "cli", "all texts {a,b}^<=%d and 4 others, every block size, 13 pattern sets, 3 encodings, read, mapped, standard input" % (7 if t else 5), mode="hist", n=7 if t else 5, cmd=True),
    ]


check("P20", "context and histograms", p20,
      "the command is run on every case and its output compared with an independent rendering of the hits. states = cases, transitions = runs of the command, traces = lines compared",
      ["context lines are those of a single-byte encoding: how lines are found in UTF-16 data is not specified", "whether the line after a hit that ends in a newline belongs to its lines is not specified"])


def p21(tier):
    t = tier == "thorough"
    return [
        job("validate", "cli", "all lists of up to %d of 12 kinds of line, in one file or two, with and without -F" % (4 if t else 3), mode="validate", n=4 if t else 3, cmd=True),
        job("encs", "cli", "the whole list of encodings: names, aliases, each used once", mode="encs", shards=2, cmd=True),
        job("sbytes", "cli", "samples of every byte, every range and every pair of 28 limits between the groups of bytes", mode="sbytes", cmd=True),
        job("sample", "cli", "all patterns of <= %d nodes, 26 longer ones, pairs, ~700 loops with several ways in; 0, 1, 2, 20, 60 samples, loop limits, two encodings" % (5 if t else 4), mode="sample", size=5 if t else 4, cmd=True),
        job("graph", "cli", "all patterns of <= %d nodes, longer ones, pairs; three depths; all texts {a,b}^5, {a,b,c}^<=4" % (6 if t else 5), mode="graph", size=6 if t else 5, n=5, cmd=True),
    ]


check("P21", "commands about patterns", p21,
      "the command is run on every bounded list or pattern; statuses and messages, the membership of every sample, and the language of the printed machine are compared with the reference. "
      "states = lists or patterns, transitions = runs of the command, traces = messages, samples and accepted strings checked",
      ["samples containing a newline are not considered"])


def p22(tier):
    t = tier == "thorough"
    py = dict(py="pybind.py", needs=("shlib",))
    return [
        job("search", bounds="all texts {a,b}^<=%d and 4 others, 7 kinds of buffer, every cut, 6 offsets, several sets of patterns" % (6 if t else 4), mode="search", n=6 if t else 4, **py),
        job("life", bounds="all histories of %d operations (parse, add, compile, write, read, context, search, close, drop) after 7 beginnings" % (4 if t else 3), mode="life", n=4 if t else 3, **py),
        job("decode", bounds="all buffers of <= %d bytes of 3 values, all hits in them, 6 encodings, 4 windows" % (5 if t else 4), mode="decode", n=5 if t else 4, **py),
        job("errors", bounds="wrong arguments, every truncation of a program, every combination of options", mode="errors", **py),
    ]


check("P22", "Python bindings", p22,
      "the bindings of the working tree, on a library built from it, run every bounded history and text; results are compared with direct calls of the C functions, and, in histories, with a model of the handles and Python's re. "
      "states = histories, texts or hits, transitions = calls, traces = hits compared",
      ["a NUL in a pattern is not specified", "CPython's reference counting is what ends a dropped object's life"])


def p23(tier):
    t = tier == "thorough"
    jv = dict(py="javabind.py", needs=("shlib", "java"), mem=0)
    return [
        job("search", bounds="all texts {a,b}^<=%d and 4 others, arrays and 5 kinds of ByteBuffer at several positions, every cut, 6 offsets, 5 sets of patterns, callbacks throwing at every hit; 3,000,000 hits in a 48 MB heap" % (6 if t else 4), mode="search", n=6 if t else 4, **jv),
        job("life", bounds="all histories of %d operations (parse, add, compile, write and read, set index, context, search, destroy, drop) after 6 beginnings" % (4 if t else 3), mode="life", n=4 if t else 3, **jv),
        job("decode", bounds="all buffers of <= %d bytes of 2 or 3 values, all hits in them, 6 encodings, 4 windows and replacements" % (5 if t else 4), mode="decode", n=5 if t else 4, **jv),
        job("text", bounds="all patterns of 1..%d of 15 characters from U+0001 to U+10FFFF, in two encodings, fixed and not" % (4 if t else 3), mode="text", n=4 if t else 3, **jv),
        job("errors", bounds="wrong arguments of every method, every truncation of a program's image", mode="errors", **jv),
        job("init", bounds="first use by two threads of every pair of 13 classes, the first thread held at every point where it asks for a class", mode="init", n=20, **jv),
    ]


check("P23", "Java bindings", p23,
      "the Java and JNI code of the working tree is compiled with a library built from it and carries out every bounded history, under the virtual machine's own checks of JNI (-Xcheck:jni); results are compared with direct calls of the C functions and a model "
      "of the handles. In init, a class loader holds one thread while the other runs. states = cases, transitions = calls, traces = hits compared (init: cases in which the thread was held)",
      ["of values the Java interface cuts to 32 bits (the return value of search) only those which fit are compared", "a NUL in a pattern is not specified", "whether a user index set on a program is also seen in the set it was made from is not specified"])
