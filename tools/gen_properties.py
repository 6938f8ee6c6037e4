#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the wording)."""
import json, os
H=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":m,"where":files[0]} for m in mech]}
    if state: a["state"]=[{"name":n,"meaning":m} for n,m in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    assert len(title)<=80,title
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

ENTRY=["src/arg_lit.c","src/arg_int.c","src/arg_dbl.c","src/arg_str.c","src/arg_rex.c","src/arg_file.c","src/arg_date.c","src/arg_rem.c","src/arg_end.c"]

p("C01","Parsing and printing do not depend on what happened before",
"The outcome of parsing a command line with a table (return value, recorded errors and their texts, match counts, the values supplied by the arguments) and the usage and glossary texts of the table are the same as in a freshly started process with a freshly built, equal table. This holds after any sequence of earlier parses of the same or other tables (successful, erroneous, or abandoned by a callback or out-of-memory handler that unwound), prints, table changes made by the caller, and changes to the environment between calls.",
["histories","fault_sequences","configurations"],"every history of library calls, aborted calls and environment changes before the observed call",
"tests parse a table a handful of times in a fixed order in one process; they never abandon a parse half way, never reuse memory for a different table, never toggle the environment between calls and compare only hand-written expectations",
["src/argtable3.c","src/arg_getopt_long.c"]+ENTRY,["option scanner restart on every parse","reset pass over the table","private copy of argv"],
[("option scanner position","where the scanner stands inside an argument and which arguments were skipped; survives an abandoned parse"),("entry counts and values","left over from the previous parse until reset")],
["return value of the parse","entries after the parse","error texts","usage and glossary texts"])

p("C02","Memory exhaustion is fail-stop, never silent and never a crash",
"If any allocation fails inside any library call, then either the out-of-memory handler is invoked exactly once, before the call returns, or the call still delivers exactly its fault-free result. The default handler writes a diagnostic to standard error and ends the process with a failure status, or aborts it if EF_DUMPCORE is set to a non-empty value, even if standard error itself cannot be written. No allocation failure leads to a memory error, an unrelated process exit, a partial result returned as success, or output on another stream.",
["fault_sequences","histories","configurations"],"every allocation of every library call failing, singly, from some point on, or by size, in every state the call can start in",
"no test makes an allocation fail; the panic path is not executed by the suite at all",
["src/arg_utils.c","src/arg_cmd.c","src/arg_dstr.c","src/arg_hashtable.c","src/argtable3.c"]+ENTRY,["checked allocation wrappers","replaceable panic handler"],
[("panic handler","process-wide function called on allocation failure")],
["process exit and its status","standard error","handler invocations","call results"])

p("C03","Objects survive an out-of-memory condition the caller recovers from",
"If an installed out-of-memory handler unwinds out of a library call, every object the call was working on is still valid: the command registry, hash tables, module name and version hold either their old or their new content, a dynamic string holds its old content possibly followed by a prefix of what was being appended, an argument table can be parsed and printed again, and an array being sorted still holds the same elements. Repeating the call once memory is available succeeds with its ordinary result, and all objects can still be released; at most the blocks allocated by the interrupted call itself are lost.",
["fault_sequences","crash_points","histories"],"every allocation point of every call failing, in every reachable object state, followed by any continuation",
"no test fails an allocation or installs an out-of-memory handler",
["src/arg_cmd.c","src/arg_hashtable.c","src/arg_dstr.c","src/argtable3.c","src/arg_utils.c"]+ENTRY,["allocate before releasing or publishing","growth of tables and buffers"],
[("command table","registered commands"),("dynamic string buffers","inline, owned and append buffers")],
["lookups, iteration and counts of the registry and hash tables","content of dynamic strings","later parses"])

p("C04","Printing to a stream delivers exactly the text, whatever the stream does",
"Each function that prints to a stream writes, in place, exactly the bytes its dynamic-string counterpart produces: nothing is lost, repeated, reordered, truncated or interpreted, for any buffering mode and stream position. If the stream starts failing, the bytes that reached it are a prefix of that text, the stream's error indicator stays set, and the call still returns with all temporary memory released. No other stream is written, and the stream is not closed.",
["fault_sequences","configurations","inputs"],"every pattern of failing and torn writes at every byte position, every buffering mode, and texts of any length and content",
"tests print to real files or stdout with no I/O faults and compare a few short texts",
["src/argtable3.c","src/arg_end.c"],["text built in a dynamic string and written with one call"],
None,["bytes accepted by the stream","stream error indicator","standard output and standard error"])

p("C05","Memory ownership is exact: no leak, double free or foreign free",
"Over any sequence of calls the library releases every block it took, exactly once, and never releases memory it was not given: parsing and printing keep nothing, releasing a table releases each non-null entry and nulls it, replacing, unregistering or uninitialising commands releases what was registered, and destroying or resetting a dynamic string releases its buffers. A string handed over with a release function is released through exactly that function, exactly once; a static string is never released or written.",
["histories","programs"],"every sequence of constructions, uses, replacements and releases, including tables with missing entries",
"tests do not count allocations and run each object through one short life",
["src/arg_utils.c","src/argtable3.c","src/arg_dstr.c","src/arg_cmd.c","src/arg_hashtable.c","src/arg_rex.c"],["one allocation per table entry","ownership hand-over in dynamic strings","hash table owns keys and values"],
None,["allocator calls","release callbacks"])

p("C06","A dynamic string behaves as a plain text value over any history",
"After any sequence of set (static, volatile, dynamic, custom release), append (text, character, formatted), reset and in-place shortening by the caller, the content of a dynamic string is what the same operations give on an ordinary text value, at every length and for formatted text of any length. Appending never writes to memory the caller handed over as static, and a volatile source may be changed or released, or may be part of the string's own current content, without effect on the result.",
["histories","inputs"],"every sequence of operations, lengths around every internal buffer size, any heap content",
"tests append a few short strings to a fresh dynamic string",
["src/arg_dstr.c"],["inline buffer, owned buffer and append buffer","buffer growth and the release of large buffers"],
[("append buffer","content, capacity and used length")],["content after each operation"])

p("C07","The command registry behaves as a map from names to commands",
"After any history of registering, replacing and unregistering commands, lookup returns exactly the last registered procedure, description and context of each name and nothing for other names, the count is the number of registered names, and an iterator visits every registered command exactly once. Dispatch calls exactly the registered procedure once with the given arguments, context and result string and returns its value, including when the procedure dispatches further commands or unregisters itself. Uninitialising and initialising again gives an empty registry.",
["histories","programs"],"every history of registry operations, any number of commands, names with equal hash values, names as prefixes of each other and at the length limit",
"tests register a handful of commands once; growth, replacement after growth, equal hashes and nested dispatch are not exercised",
["src/arg_cmd.c","src/arg_hashtable.c"],["chained hash table with prime growth","replacement on re-registration"],
[("command table","name to command record")],["lookup, count, iteration, dispatch"])

p("C08","Work on separate objects does not interfere under any interleaving",
"Concurrent callers that each use their own tables, dynamic strings, hash tables and arrays, read the shared registry and module identity without changing them, and serialise only their parses, get exactly the results they would get alone, whatever the interleaving. A parse of one table may overlap with any construction, printing, string building, sorting, lookup or release on other objects.",
["schedules","histories"],"every interleaving of two or more callers at the granularity of the library's basic blocks",
"the suite is single threaded",
["src/argtable3.c","src/arg_dstr.c","src/arg_end.c","src/arg_utils.c","src/arg_hashtable.c","src/arg_rex.c","src/arg_date.c","src/arg_cmd.c"],["no mutable shared state outside the option scanner, registry and module identity"],
[("option scanner globals","shared, used by parsing only")],["results of each caller"])

p("C09","Results do not depend on memory garbage, addresses or stack content",
"The observable results of any program using the library (return values, texts, values, error records, order-independent registry contents) are a function of its inputs alone: they are the same whatever previously released or never initialised memory contains, wherever blocks are placed and however addresses are reused, and whatever value errno holds. No call reads outside the memory it was given or owns.",
["configurations","histories"],"every content of fresh heap and stack memory, every placement and reuse policy of the allocator",
"tests run once with whatever the process heap happens to hold, which is mostly zero",
["src/argtable3.c","src/arg_dstr.c","src/arg_utils.c","src/arg_hashtable.c","src/arg_cmd.c"]+ENTRY,["explicit initialisation of every field after allocation"],
None,["complete trace of results under different memory contents"])

p("C10","The caller's argv, strings and table are never modified",
"No call, completed or abandoned, modifies the argument vector or its strings, the strings given to constructors and printing functions, the definitions inside entries (tags, texts, counts, handlers), or the table array, except that releasing a table nulls its entries. String, file and regular-expression results and the offending arguments in error records refer to the caller's own argument strings, not to copies.",
["histories","crash_points","fault_sequences"],"every input, and every point inside a call at which it can be observed (from callbacks) or abandoned",
"tests do not compare argv or definitions before and after, and never look in the middle of a parse",
["src/argtable3.c","src/arg_getopt_long.c","src/arg_str.c","src/arg_file.c","src/arg_rex.c","src/arg_int.c","src/arg_date.c","src/arg_cmd.c"],["parsing works on a private copy of argv","option names copied before splitting"],
None,["argv and definition memory, at any time"])

p("C11","Error accounting is exact at any error capacity",
"A parse returns the number of recorded errors, which never exceeds the table's error capacity; if all errors fit, they are all recorded in order of occurrence, and otherwise the record holds the first ones followed by one final 'too many errors' marker. The printed error list has one message per record, in order, and the records are unaffected by printing. The capacity changes nothing else about the parse.",
["histories","inputs","configurations"],"every table, command line, number of errors and capacity, on first and later parses",
"tests use one large capacity and a few errors",
["src/argtable3.c","src/arg_end.c"],["bounded error record with overflow marker"],
[("error record","codes, offending entries and arguments")],["return value, error record, printed errors"])

p("C12","Every argument reaches exactly one entry or is reported",
"A parse resets each entry exactly once before anything else, then delivers each option occurrence to the one entry that defines it and each remaining argument, in order, to the positional entries in table order, each at most until its maximum count; every argument that no entry accepted, every unknown, ambiguous or incomplete option and every rejection is reported exactly once. The final check of each entry runs exactly once, after all deliveries, if and only if nothing was reported before. Value slots that neither this parse nor an earlier one delivered a value to keep what the caller stored there.",
["inputs","fault_sequences","configurations"],"every table, every command line, every pattern of accepting and rejecting handlers, with and without POSIXLY_CORRECT",
"tests cover a few dozen command lines per entry type with well-behaved handlers; callback order and exactly-once delivery are not observed",
["src/argtable3.c","src/arg_getopt_long.c"]+ENTRY,["tagged pass over options, untagged pass over the rest, check pass","argument permutation"],
[("position in the permuted argument list","where the positional pass starts")],["calls of entry handlers, counts, values, error records"])

p("C13","Sorting only ever permutes the selected elements",
"Sorting a subrange leaves it an ascending permutation of what it held, for any element size and comparison function, and leaves everything outside the subrange untouched. If an allocation fails or the comparison function unwinds at any point, no element is lost or duplicated and the array can be sorted again.",
["inputs","crash_points","fault_sequences"],"every array, subrange and element size, and every point at which the sort can be abandoned",
"the suite sorts a few small integer arrays to completion",
["src/arg_utils.c"],["merge into a temporary block, copied back when complete"],
None,["array content after completion or abandonment"])

p("C14","Help and error messages carry the current module identity and commands",
"The generated help, usage and syntax-error messages contain the last module name and version set, or the documented placeholders if none or an empty name was set, the description currently registered for the command, the table's usage and glossary texts and, for errors, the errors of the last parse, in the documented layout and with texts taken literally. They are appended to the given string without altering its earlier content, a help request takes precedence over errors, and the exit code is set exactly when a message is produced.",
["histories","inputs"],"every history of identity changes, registrations and parses before the message is made",
"tests build one or two messages with one identity",
["src/arg_cmd.c","src/arg_dstr.c","src/argtable3.c"],["module name and version kept as private copies"],
[("module name and version","last values set")],["generated messages and exit codes"])

p("C15","Using the library inside its own callbacks does not disturb the outer call",
"Entry handlers, command procedures, comparison functions and string release functions may themselves call the library on other objects (build, print and release tables, build strings, sort, look up, register and dispatch commands; whole parses from reset, check and error handlers and command procedures), and both the inner calls and the interrupted outer call give exactly the results they give on their own.",
["programs","schedules","histories"],"every nesting of library calls inside callbacks at every callback invocation",
"no test calls the library from inside a callback except a single dispatch",
["src/argtable3.c","src/arg_cmd.c","src/arg_dstr.c","src/arg_utils.c","src/arg_end.c"],["no shared scratch buffers","scanner state re-initialised per parse"],
None,["results of the inner and the outer call"])

p("C16","Hash tables behave as maps over any history, iteration and removal included",
"After any history of insertions of new keys, value changes, removals and removals through an iterator, a hash table holds exactly the resulting key-value pairs: search, count and iteration agree with a plain map for any hash function, including constant ones, and any initial size. Removing through an iterator removes exactly the current pair and continues with the not yet visited ones, and destroying a table releases all keys and, if and only if requested, all values.",
["histories","inputs"],"every history, key set, hash function and size",
"tests insert a few keys with a good hash function",
["src/arg_hashtable.c"],["chained buckets, prime growth at the load limit, iterator with parent link"],
None,["search, count, iteration, releases"])

p("C17","Every call finishes: bounded work for any input and after any fault",
"Every call returns, or hands over to the out-of-memory handler, after an amount of work bounded by a polynomial in the sizes of its inputs, whatever the arguments, margins, formats and texts are, and also when it runs after abandoned calls, in registries and tables of any size, and on failing streams. This covers malformed options, full error records and regular expressions without nested repetition.",
["inputs","histories","fault_sequences"],"every input and every preceding history, measured in executed basic blocks",
"a test that hangs is only noticed for the inputs it samples",
["src/arg_getopt_long.c","src/argtable3.c","src/arg_dstr.c","src/arg_hashtable.c","src/arg_date.c"],["option scanner advance","line wrapping advance","buffer growth loops"],
None,["number of basic blocks executed per call"])

def na(id,title,statement,why,files,mech):
    p(id,title,statement,["inputs"],"every input text",why,files,mech)
na("N01","Integer values: text to number conversion is exact",
"An integer argument in decimal, hexadecimal, octal or binary notation with an optional sign and KB, MB or GB suffix yields exactly the denoted value, and any other text or a value outside the range is rejected.",
"tests sample a few dozen texts",["src/arg_int.c"],["prefix-specific conversion with suffix handling"])
na("N02","Floating point values: text to number conversion is exact",
"A floating point argument is accepted exactly when its whole text is a C floating point number, and yields the value the C library gives it.",
"tests sample a few texts",["src/arg_dbl.c"],["strtod and end-of-text check"])
na("N03","Date values: text is matched against the format exactly",
"A date argument is accepted exactly when it matches the entry's format, and the broken-down time has the denoted fields.",
"tests sample a few formats",["src/arg_date.c"],["embedded strptime"])
na("N04","File names are split into base name and extension correctly",
"For each file argument the base name is the part after the last path separator and the extension the part from the last dot of a proper base name, with dot files having none.",
"tests sample some names",["src/arg_file.c"],["suffix scanning of the argument"])
na("N05","Regular expression arguments are matched by the pattern's language",
"A regular expression argument is accepted exactly when the whole text is in the language of the pattern.",
"tests sample a few patterns",["src/arg_rex.c"],["embedded backtracking matcher"])
na("N06","Usage and glossary texts describe the table faithfully",
"The usage line and the glossary show every tag, data type, repetition and description of the table in table order in the documented layout.",
"tests compare a few tables",["src/argtable3.c"],["fixed-size per-entry composition"])
na("N07","Text wrapping keeps every word within the margins",
"Wrapped text contains every word of the input in order, no line exceeds the column width, and continuation lines are indented to the left margin.",
"tests wrap a few texts",["src/argtable3.c"],["line breaking at white space"])

with open(os.path.join(H,"properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
