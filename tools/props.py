#!/usr/bin/env python3
"""The properties (source of properties.jsonl) and the manifest.  Run to regenerate both."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS, NOTES, NA = [], {}, []


def prop(id, title, statement, over, text, why, files, mech, observe, note, state=(), hook=None):
    assert len(title) <= 80, title
    PROPS.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
        "anchors": {"files": files, "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                    "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                    "observe_at": observe, "hook_needed": hook}})
    NOTES[id] = note


ENUM = "exhaustive bounded enumeration of inputs/histories on the real code against an independent reference model"

prop("P01", "Hits of a single pattern follow the documented regular-expression semantics",
     "For every accepted pattern and every byte sequence, a complete search reports exactly the non-overlapping matches that a leftmost, Perl-like prioritised "
     "(greedy/non-greedy) matcher finds scanning left to right, each with its exact start and end. A bounded repetition means the same as writing out its copies, and no match is empty.",
     ["inputs", "programs"], "all patterns built from literals, classes, concatenation, alternation, and greedy/non-greedy/counted repetition; all texts",
     "The tests run a few thousand fixed pattern/text pairs; priority interactions between nested repetitions and alternations appear only for combinations nobody wrote down (five such defects were found).",
     ["src/lib/nfabuilder.cpp", "src/lib/rewriter.cpp", "src/lib/nfaoptimizer.cpp", "src/lib/vm.cpp", "src/lib/compiler.cpp", "src/lib/codegen.cpp"],
     [("NFA construction with ordered transitions", "src/lib/nfabuilder.cpp"), ("parse-tree rewriting", "src/lib/rewriter.cpp"), ("thread priorities, live labels, match ends", "src/lib/vm.cpp")],
     ["lg_search", "lg_closeout_search callbacks"],
     "Every pattern AST up to 6 nodes (7 thorough) is executed by the real code on every short text and its complete hit list compared with a backtracking reference. Trusts the reference matcher; assumes the small-scope hypothesis beyond the bounds.",
     [("active threads", "alternatives in priority order", "include/vm.h")])
prop("P02", "Searching keywords together finds for each what searching it alone finds",
     "In a program made from several keywords, the hits reported for each keyword index, in their order, are exactly those of a program made from that keyword alone, whatever the other keywords, their encodings and case modes, their order and their number. Identical keywords added twice are each reported.",
     ["inputs", "programs"], "all tuples of keywords; all texts",
     "Multi-pattern tests hold a few dozen fixed sets; cross-talk arises from particular combinations sharing states in the merged automaton.",
     ["src/lib/nfaoptimizer.cpp", "src/lib/vm.cpp", "src/lib/compiler.cpp", "src/lib/fsmthingy.cpp"],
     [("merging a keyword's automaton into the whole", "src/lib/nfaoptimizer.cpp"), ("labels and guard states", "src/lib/nfaoptimizer.cpp"), ("per-label liveness and match ends", "src/lib/vm.cpp")],
     ["lg_search callbacks' keyword index"],
     "All ordered pairs, triples and 4-tuples of a pool of small patterns (and mixed encodings/case modes, and up to 65537 keywords) are compiled together and run on every short text. Trusts the reference matcher.")
prop("P03", "Dividing the input into buffers does not change the hits",
     "The hits reported for a byte stream depend only on its bytes and its start offset: neither where it is divided into consecutive search calls, nor empty buffers, nor the fate of a buffer after its call, matter. Shifting the start offset shifts every hit's start and end by the same amount and changes nothing else.",
     ["inputs", "histories"], "all programs, texts, divisions into buffers, start offsets",
     "Tests search mostly one buffer; a hit straddling particular boundaries under particular programs (start filter, lookahead) is not sampled.",
     ["src/lib/vm.cpp", "src/lib/lightgrep_c_api.cpp", "include/thread.h"],
     [("start filter near the end of a buffer", "Vm::search"), ("threads carry absolute offsets", "include/thread.h")], ["lg_search", "lg_closeout_search"],
     "Every division of every bounded text is executed with exact-size buffers overwritten and freed after use; hits compared with the reference.")
prop("P04", "The offset returned by a search bounds every hit still to come",
     "The offset returned by searching a buffer is never greater than the start of any hit that depends on bytes not yet searched, nor greater than the offset searched to, and for a single keyword it is the least such start. Resolving with further buffers completes exactly the hits that started before them, starting no new ones.",
     ["inputs", "histories"], "all programs, all texts so far, all continuations",
     "It quantifies over all continuations of a text; tests assert the value for a handful of fixed searches.",
     ["src/lib/vm.cpp", "include/lightgrep/api.h"], [("start of the leftmost live thread", "Vm::_startOfLeftmostLiveThread"), ("resolving", "Vm::searchResolve")], ["return value of lg_search, lg_search_resolve"],
     "For every (program, prefix) all continuations up to the bound are executed and the returned offset compared with the least start observed. Hits already determined but not yet reported are exempt, as the project's tests require.")
prop("P05", "An anchored search reports exactly the matches at the first byte",
     "An anchored search of a buffer reports, for each keyword that matches at the buffer's first byte, exactly one hit with the extent a full search would give it there, and reports nothing else. It needs no reset before or after, whatever the context was used for.",
     ["inputs", "programs", "histories"], "all programs, buffers, offsets and earlier uses of the context",
     "Tests call it on fresh contexts with fixed texts; a context left mid-search gave wrong hits (found and fixed).",
     ["src/lib/vm.cpp"], [("first-byte threads and filter", "Vm::startsWith")], ["lg_starts_with"],
     "Every small program x text x offset, also directly after every short unfinished search, compared with the reference.")
prop("P06", "A search context behaves as fresh after a reset, and contexts are independent",
     "After a reset (explicit, or implied by an anchored search) a context reports what a newly created one would, whatever was searched before and whether or not it was closed out. Contexts made from the same program never influence one another.",
     ["histories"], "all sequences of search, close-out, reset, anchored search, destruction and creation over several contexts of a program",
     "Histories: tests use one context for one or two searches.",
     ["src/lib/vm.cpp", "src/lib/lightgrep_c_api.cpp"], [("reset", "Vm::reset")], ["callbacks of every context operation"],
     "All operation sequences up to depth 5 (6 thorough) over two contexts are executed for every small program and compared with a model (text since last reset -> reference hits).")
prop("P08", "A serialized program behaves as the original; truncated images are refused",
     "A program written to a buffer of the reported size and read back, at any address and after the original is gone, reports the same hits in the same order and describes the same patterns, and writes to the identical image; writing touches only the reported number of bytes. Reading any proper prefix of an image fails cleanly without touching memory beyond it.",
     ["programs", "inputs", "fault_sequences"], "all programs; all texts; all truncation points",
     "Tests round-trip a few programs; truncation points and alignments are not enumerated.",
     ["src/lib/lightgrep_c_api.cpp", "src/lib/program.cpp", "src/lib/pattern_map.cpp"], [("marshalling", "src/lib/program.cpp"), ("pattern descriptions", "src/lib/pattern_map.cpp"), ("size checks", "read_program")], ["lg_write_program", "lg_read_program", "lg_prog_pattern_info"],
     "Every program of the pool, every alignment, every proper prefix against an unmapped page; read-only source pages. Corruption other than truncation is not claimed.")
prop("P09", "The determinization depth does not change the hits",
     "Programs made from the same keywords with any determinization depth, from none to full, report exactly the same hits for every text.",
     ["programs", "configurations", "inputs"], "all keyword sets, all depths, all texts",
     "Tests use one or two depths; agreement must hold for every automaton (a heap overflow at one depth for one shape was found and fixed).",
     ["src/lib/nfaoptimizer.cpp", "src/lib/codegen.cpp", "src/lib/compiler.cpp", "include/lightgrep/api.h"], [("subset construction to a depth", "src/lib/nfaoptimizer.cpp"), ("jump tables", "src/lib/compiler.cpp")], ["lg_create_program", "lg_search"],
     "All small keyword sets and pairs of byte-range patterns at 17 depths on all short texts.")
prop("P10", "The parser accepts exactly the pattern language, and patterns mean what it says",
     "A pattern is accepted if and only if it is a sentence of the documented pattern language that cannot match the empty string; repetition counts must fit the supported range, nesting and length are not otherwise limited in practice. An accepted pattern matches according to its parse (precedence, escapes, classes, inline case switches). A rejected one, malformed UTF-8 included, yields an error naming the pattern, and nothing is read beyond its end. A fixed-string pattern matches exactly itself.",
     ["inputs"], "all pattern strings",
     "The language is infinite and tests list examples; crashes, wrongly rejected deep nesting and silently truncated counts were found and fixed.",
     ["src/lib/re_grammar.ypp", "src/lib/parseutil.cpp", "src/lib/parsetree.cpp", "include/unicode.h", "src/lib/lightgrep_c_api.cpp"],
     [("grammar", "src/lib/re_grammar.ypp"), ("tokens and escapes", "src/lib/parseutil.cpp"), ("empty-matching patterns rejected", "src/lib/parsetree.cpp")], ["lg_parse_pattern", "lg_parse_pattern_slice", "lg_add_pattern", "errors, hits"],
     "All strings up to a length over alphabets of metacharacters are compared with an independent reference parser and matcher. Strings the documentation leaves undefined are parsed but not judged.")
prop("P11", "Character classes and escapes denote exactly the documented character sets",
     "Every character class matches exactly the set its text denotes: ranges; the named sets \\d \\s \\w \\h \\v and their complements in ASCII and Unicode mode; Unicode properties and character names; "
     "unions, intersections, differences, symmetric differences, negation and nesting of these; and raw bytes (\\z), alone or mixed with characters. A negation takes the complement over all Unicode characters; a class which leaves nothing that can match in the encoding is refused.",
     ["inputs", "programs"], "all class expressions, all characters",
     "The tests check some classes at some characters; the property is about all 1.1 million characters and about combinations of set operators.",
     ["src/lib/parser.cpp", "src/lib/parseutil.cpp", "src/lib/icuutil.cpp", "src/lib/re_grammar.ypp", "include/rangeset.h"],
     [("class actions of the parser", "src/lib/parser.cpp"), ("set operators over code points and bytes", "include/rangeset.h"), ("named sets", "src/lib/parser.cpp"), ("properties and names from ICU", "src/lib/icuutil.cpp")],
     ["hits of lg_search on a text of all characters"],
     "Every expression of a bounded set (every named set, property, character name; all operator combinations of few operands) is run by the real code over every character. Trusts ICU's per-character data.")
prop("P12", "Case-insensitive matching matches exactly the case variants",
     "A case-insensitive pattern matches exactly what it would match with characters replaced by others of the same full case folding, for literals, classes (before negation) and fixed strings; "
     "in ASCII mode the ASCII letters correspond only to each other. The switches (?i) (?-i) (?a) (?-a) have effect up to the end of the enclosing group and override the options given.",
     ["inputs", "programs"], "all characters, all class expressions, all placements of the switches",
     "Folding has some 2,800 characters with irregular classes (Kelvin sign, sharp s, sigma); tests check a few letters.",
     ["src/lib/icuutil.cpp", "src/lib/parser.cpp", "src/lib/parseutil.cpp", "src/lib/re_grammar.ypp"],
     [("closure of a set under case", "src/lib/icuutil.cpp"), ("switch scoping", "src/lib/parser.cpp")],
     ["hits of lg_search"],
     "Every cased character of Unicode as literal, class, negated class and fixed string against every other; all short sequences of switches and groups. Trusts ICU's case folding.")
prop("P13", "Every encoding matches exactly the encoded forms of the pattern's characters",
     "For every encoding name accepted (in any case, and every alias), a keyword added under it matches a byte sequence exactly when that sequence is the encoding of a character sequence the pattern matches; "
     "characters the encoding cannot represent match nothing, and a pattern none of whose characters it can represent is refused. Malformed, overlong and surrogate byte sequences are matched by no pattern of characters.",
     ["inputs", "programs"], "all encodings, all characters, all ranges, all byte sequences",
     "Byte-range splitting of ranges has many boundary cases per encoding and there are some 200 encodings; tests cover a few ranges of UTF-8/16/32.",
     ["src/lib/utf8.cpp", "src/lib/utfbase.cpp", "include/encoders/utf16.h", "include/encoders/utf32.h", "src/lib/icuencoder.cpp", "src/lib/icuconverter.cpp", "src/lib/encoderfactory.cpp", "src/lib/nfabuilder.cpp"],
     [("ranges to byte-set sequences", "src/lib/utfbase.cpp, src/lib/utf8.cpp"), ("per-character conversion and collapsing", "src/lib/icuencoder.cpp"), ("name lookup", "src/lib/encoderfactory.cpp")],
     ["lg_add_pattern's result", "liveness and hits of lg_search"],
     "The whole tree of byte prefixes is explored on the real code for classes covering all characters in every encoding, and for all ranges between boundary characters. Trusts ICU's converters.")
prop("P14", "Transformation chains are accepted exactly when well-formed and apply in order",
     "A chain of names separated by '|' is accepted exactly when it consists of character transformations, then one encoding, then byte transformations, all known; an accepted chain matches exactly the bytes obtained by applying these in order to the pattern's characters. "
     "A refused chain leaves the keyword set unchanged and reports an error.",
     ["inputs", "programs"], "all chains of names",
     "Tests check a handful of chains; the property is about all sequences of known and unknown names in all positions.",
     ["src/lib/encoderfactory.cpp", "src/lib/chain.cpp", "src/lib/oceencoder.cpp", "src/lib/byteencoder.cpp", "src/lib/encoderbase.cpp"],
     [("parsing a chain", "src/lib/chain.cpp"), ("OCE permutation", "src/lib/oceencoder.cpp")],
     ["lg_add_pattern's result", "hits of lg_search"],
     "All sequences of up to 4 (5) of 12 names; each accepted chain's byte language explored as in P13.")
prop("P15", "Decoding a hit yields its characters, the context around them, and their offsets",
     "For every buffer, hit window in it, encoding chain and context size, the decoded window tiles the bytes from its first to its end offset with characters and single undecodable bytes; decoding restarts exactly at the hit's first byte; trailing context is the requested number of characters "
     "or up to the buffer's end; leading context is the requested number or down to the buffer's start, preferring the longest run of valid characters next to the hit, then the fewest bad bytes. The count returned is the number of bad bytes in the window, the string form is the same with bad and NUL replaced, and nothing outside the buffer is read.",
     ["inputs"], "all byte strings, windows, encodings, context sizes",
     "Tests decode ten fixed buffers; alignment, truncation and invalid sequences next to a hit multiply with the encodings (three defects were found).",
     ["src/lib/lightgrep_c_util.cpp", "include/decoders/utf8.h", "include/decoders/utf16.h", "include/decoders/utf32.h", "include/decoders/utfdecoderbase.h", "include/decoders/icudecoder.h", "src/lib/decoders/decoderfactory.cpp"],
     [("choice of leading context, hit, trailing context", "decode() in src/lib/lightgrep_c_util.cpp"), ("decoder chain", "src/lib/decoders/decoderfactory.cpp")],
     ["lg_read_window", "lg_hit_context"],
     "Every window of every short byte string over bytes chosen to exercise each encoding is decoded on the real code and compared with an independent decoder; every character of every encoding round-trips.")
prop("P16", "A program holds exactly the keywords added before it; failures add nothing",
     "Adding a keyword returns the number of keywords added before it, and a failed parse or addition reports an error and changes nothing. Each program made from a set of keywords describes and finds exactly the keywords added up to then, may be made repeatedly and at any time between additions, and outlives the handles it was made from.",
     ["histories"], "all histories of parsing, adding, making programs and destroying handles",
     "Histories: tests only ever build once (a second program from the same set crashed; found and fixed).",
     ["src/lib/lightgrep_c_api.cpp", "src/lib/fsmthingy.cpp", "src/lib/pattern_map.cpp"], [("finalising a copy of the automaton", "FSMThingy::finalizeGraph"), ("pattern map copied on write", "src/lib/lightgrep_c_api.cpp")], ["return values, counts, pattern infos, errors, hits"],
     "All histories of up to 6 operations (7 thorough) are executed beside a model; indices, counts, descriptions and every program's hits are compared.")

prop("P17", "A pattern list adds each line's pattern; bad lines are reported, harm no other",
     "For every list of tab-separated lines, adding the list has the effect of parsing and adding each line's pattern in each of its encodings in order, with the line's options or the defaults, and the line number as user index. Each line or encoding which cannot be added yields exactly one error, in order, with message, pattern, encoding, "
     "source and line number; all other lines and encodings are added all the same. The call succeeds exactly if there are no errors, and errors may be ignored by passing no error pointer.",
     ["inputs"], "all pattern lists, defaults and earlier contents of the keyword set",
     "Tests only try a handful of lists; a malformed line's effect on the lines around it multiplies (four defects were found and fixed).",
     ["src/lib/lightgrep_c_api.cpp"], [("lines, columns, defaults, error list", "addPatternList in src/lib/lightgrep_c_api.cpp")], ["lg_add_pattern_list: return value, errors", "lg_fsm_pattern_info", "hits"],
     "All sequences of bounded length of 18 kinds of lines, under all combinations of terminators, defaults, error pointers and earlier patterns, are compared with adding the patterns one at a time.")

prop("P07", "Threads with handles of their own, searching with one program, do not interact",
     "Any number of threads may search at once with contexts of the same program (making, resetting and destroying them), read its patterns and serialise it, while others parse, build, decode and load programs with handles of their own, add to the keyword set it was made from, or destroy other programs of that set. "
     "Under every interleaving there is no data race, deadlock or crash, and every thread observes exactly what it would observe alone.",
     ["schedules"], "all interleavings of API calls on distinct contexts, sets, decoders, and shared read-only programs",
     "No test uses two threads; hidden shared state (static scratch, caches, reference counts) shows only under particular interleavings.",
     ["src/lib/vm.cpp", "include/vm.h", "src/lib/lightgrep_c_api.cpp", "src/lib/program.cpp", "src/lib/lightgrep_c_util.cpp", "src/lib/pattern_map.cpp"],
     [("shared programs and pattern maps", "ProgramHandle, FSMHandle in include/handles.h"), ("per-search state", "Vm in include/vm.h")], ["hits, pattern infos, decoded text, return values; memory accesses"],
     "Every schedule (with a preemption bound for three threads) of combinations of API histories runs on the real, instrumented code under a controlled scheduler with vector-clock race detection.")

prop("P19", "The command finds what the library finds, whatever the options and blocks",
     "Searching with the lightgrep command prints, for each input in the order given, exactly the hits a search of that input's whole contents with the given patterns, encodings and options yields: one tab-separated line each of [path,] start, end, keyword index, keyword, encoding; each keyword's in order. "
     "This is so for every block size, whether the input is read, memory-mapped, standard input, listed in a file, or found recursively (hidden files and links to files included, linked directories not entered), for a program saved and read back, and whatever the timing of the thread that reads ahead. Empty inputs harm nothing. Contradictory or invalid options are refused with a nonzero status and no output.",
     ["inputs", "configs", "schedules"], "all inputs, block sizes, combinations of options, ways of giving patterns and inputs, and interleavings of reading and searching",
     "Option tests parse options without searching, and no test searches files in blocks; three defects were found here.",
     ["src/cmd/main.cpp", "src/cmd/optparser.cpp", "src/cmd/options.cpp", "src/cmd/searchcontroller.cpp", "src/cmd/reader.cpp", "src/cmd/hitwriter.cpp", "src/cmd/lg_app.cpp"],
     [("block loop and read-ahead", "SearchController::searchFile, FileReader::read"), ("option handling", "src/cmd/optparser.cpp, src/cmd/options.cpp"), ("choice of inputs", "src/cmd/main.cpp")], ["standard output and error, output file, exit status"],
     "The command's own main() is run in a child process for every case; the enumerated dimensions are texts, block sizes, sources, options, and every order of block reads and block searches.")

prop("P20", "Context and histogram show the text of every hit, at any block size",
     "With -A/-B/-C every hit's line has two more columns: the offset at which its context begins and its text, decoded in the hit's encoding, from the beginning of the line NUM lines before the one where the hit begins to the end of the line NUM lines after the one where it ends, with tab, newline and return escaped; hits are set apart by the group separator. "
     "The histogram file has one line for each distinct hit text of each keyword: count, escaped text, keyword index and keyword, in descending order of count, then of index and text; counts add up over all inputs. Neither depends on the block size or the source of the input.",
     ["inputs", "configs"], "all inputs, hits, context sizes, block sizes and sources, for patterns in the single-byte encodings (and UTF-16 for histograms)",
     "Tests give the formatting functions a handful of buffers; hits that cross blocks, begin before a block or end with the input are not among them (one defect was found).",
     ["src/cmd/hitwriter.cpp", "include/hitwriter.h", "src/cmd/searchcontroller.cpp", "src/cmd/reader.cpp"],
     [("lines around a hit", "find_leading_context, find_trailing_context"), ("decoding and counting", "HitOutputData, HistogramInfo"), ("text kept from earlier blocks", "SearchController::searchFile")], ["standard output, histogram file"],
     "All bounded texts over letters, newline and return are searched under all context sizes and block sizes; the output is compared with an independent rendering.")

prop("P21", "Commands which examine patterns tell the truth about them",
     "validate ends with status 0 exactly if all patterns can be parsed and encoded, and otherwise names each bad one, in order, on standard error. Each sample printed by sample matches one of the patterns, none is printed twice, there is at least one if any is asked for, and no more than asked for; it always ends. "
     "The machine printed by graph accepts, for each keyword, only matches of that keyword, among them the one a search reports. --list-encodings names just the encodings which keywords may use, each alias with its encoding.",
     ["inputs", "programs"], "all pattern lists and patterns",
     "Tests of these commands look at single examples of internal functions; none looks at what the command prints or returns (four defects were found).",
     ["src/cmd/main.cpp", "src/lib/matchgen.cpp", "src/lib/errors.cpp", "src/lib/utility.cpp", "src/cmd/lg_app.cpp"],
     [("sampling walks of the NFA", "src/lib/matchgen.cpp"), ("error output", "Errors::outputErrors"), ("graph output", "writeGraphviz in src/lib/utility.cpp")], ["standard output and error, exit status"],
     "Every bounded list of pattern kinds is validated; every bounded pattern is sampled and graphed, and what is printed is checked against the reference matcher.")

prop("P22", "The Python bindings do what the library does, and keep what it needs alive",
     "For every history of making, using, closing and dropping Pattern, Fsm, Program, Context and HitDecoder objects, and every buffer-like object, at every offset and cut, search, startswith, closeout, searchBuffer and the hit contexts report exactly the hits, user indices (all 64 bits), encodings, return values and texts the C functions give for the same calls. "
     "A failing call raises an exception and changes nothing; a closed object refuses further use; objects may be dropped in any order, programs read from a buffer and contexts remain usable when what they were made from is gone.",
     ["inputs", "histories"], "all histories of handle operations, buffers, offsets, options and user indices",
     "The Python tests try each call once, on one kind of buffer at offset 0, and never drop an object another depends on; three defects were found.",
     ["pylightgrep/lightgrep/__init__.py", "include/lightgrep/api.h"],
     [("declarations of the C functions", "_LG restype and argtypes in __init__.py"), ("ownership", "Handle and its subclasses in __init__.py")], ["hits, return values, exceptions, decoded text"],
     "All bounded histories of the real bindings run beside a model; all bounded searches run beside direct calls of the C functions.")

prop("P23", "The Java bindings do what the library does, and keep what it needs alive",
     "For every history of making, using, destroying and dropping handles, and every array or ByteBuffer at every position, search, startsWith, closeoutSearch and getHitContext report exactly the hits, indices, texts and counts the C functions give for the same bytes, for patterns and texts of all Unicode characters; buffers, their positions and limits are left alone. "
     "A wrong argument, destroyed handle or failing call raises the documented exception and changes nothing; an exception thrown by a callback reaches the caller, and the context may be used again (after a reset, for a search). Programs read from an array and contexts remain usable when what they were made from is gone. "
     "Hits are not kept in memory. The classes may first be used by several threads at once.",
     ["inputs", "histories", "schedules"], "all histories of handle operations, buffers, positions, offsets, characters; all orders of class initialisation by two threads",
     "The Java tests are not part of the stable suite, and reading a program is not among them; seven defects were found.",
     ["src/java/jni/jlightgrep.cpp", "src/java/src/main/java/com/lightboxtechnologies/lightgrep/ProgramHandle.java", "src/java/src/main/java/com/lightboxtechnologies/lightgrep/ContextHandle.java",
      "src/java/src/main/java/com/lightboxtechnologies/lightgrep/FSMHandle.java", "src/java/src/main/java/com/lightboxtechnologies/lightgrep/LGUtil.java", "src/java/src/main/java/com/lightboxtechnologies/lightgrep/LibraryLoader.java",
      "src/java/src/main/java/com/lightboxtechnologies/lightgrep/Throws.java"],
     [("conversion of strings, buffers and errors", "src/java/jni/jlightgrep.cpp"), ("argument checks", "Throws.java and its callers"), ("class initialisation", "LibraryLoader.init")], ["callbacks, return values, exceptions"],
     "All bounded histories are carried out by the real bindings in a virtual machine and compared with direct calls of the C functions and a model of the handles; class initialisation is explored with a controlling class loader.")


def main():
    import checks
    order = {k: i for i, k in enumerate(sorted(p["id"] for p in PROPS))}
    PROPS.sort(key=lambda p: order[p["id"]])
    with open(V + "/properties.jsonl", "w") as f:
        for p in PROPS:
            f.write(json.dumps(p) + "\n")
    m = {"version": 1,
         "setup_cmd": "python3 tools/lgbuild.py opt acc",
         "hooks": {"guard": "LG_VERIF_HOOKS", "enable": "none needed: no hooks were added to /repo; checks compile /repo's sources unchanged", "source_commits": []},
         "checks": [], "not_applicable": [],
         "notes": "python3 check.py PXX [--tier thorough]; python3 check.py --replay FILE. See DESIGN.md."}
    for p in PROPS:
        i = p["id"]
        if i in checks.CHECKS:
            c = checks.CHECKS[i]
            m["checks"].append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                                "evidence_file": "evidence/%s.json" % i, "technique": c.get("technique", ENUM), "level": c["level"], "level_note": NOTES[i]})
        else:
            print("no check for", i)
    for i in checks.CHECKS:
        if i not in order:
            print("no property for", i)
    m["not_applicable"] = [{"property": a, "reason": b} for a, b in NA]
    json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)


if __name__ == "__main__":
    main()
