"""Writes properties.jsonl and MANIFEST.json (one source for both)."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
U = "pyudunits2/"
P = []
NA = []

def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), note=None, na=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": [U + f for f in files],
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
            "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism],
            "observe_at": list(observe), "hook_needed": None,
        },
    })
    assert len(title) <= 80, title
    if na:
        NA.append({"property": id, "reason": na})
    else:
        CH.append((id, note))

CH = []
SYS = "_unit_system.py"
UNIT = "_unit.py"
GR = "_grammar/__init__.py"

prop("C01", "Concurrent callers get the single-threaded answers",
     "Any number of threads may query one unit system, and share the units, date units and converters obtained from it, at the same time. Under every thread schedule each call returns or raises exactly what the same call returns or raises alone in a fresh single-threaded process, and no call blocks forever.",
     ["schedules", "inputs"], "every interleaving of every set of queries (resolve, print, expand, dimensionality, compare, convertibility, convert, failing queries) on a shared system",
     "The tests are single-threaded; resolution memoises lazily into shared objects and the parser keeps class-level tables, so a wrong interleaving is a matter of one bytecode.",
     [SYS, UNIT, GR, "_grammar/_antlr4_runtime/atn/ParserATNSimulator.py"],
     [("lazy definitions resolved once and memoised", U + SYS), ("symbolic forms cached per unit", U + UNIT), ("prediction tables shared by all parsers", U + "_grammar/parser/udunits2Parser.py")],
     [("resolved unit memo", "definition already resolved", U + SYS), ("cached symbolic definition", "sympy form of a unit", U + UNIT), ("decisionsToDFA", "shared prediction tables", U + "_grammar/parser/udunits2Parser.py")],
     ["UnitSystem.unit", "UnitSystem.unit_by_name_or_symbol", "Unit.expanded", "Unit.dimensionality", "Converter.convert"],
     note="Seeded search over thread schedules at line and bytecode granularity in the package's own frames; sympy, numpy and lxml calls are atomic steps. Evidence, not proof.")
prop("C02", "Queries leave no trace",
     "Asking a unit system questions never changes it. The answer to a query (a resolved string, its expansion, dimensionality, equality, convertibility, a conversion, or the error it raises) is the same whatever queries, successful or failing, were asked before it, in whatever order and however often.",
     ["histories", "inputs"], "every finite sequence of queries, including failing ones and look-alike strings, on one shared system and on units kept from it",
     "Tests ask a few queries each on fresh fixtures and never compare an answer with the one given before hundreds of other queries.",
     [SYS, UNIT, GR, "_expr/substitute.py", "_expr/dimensionality.py"],
     [("expression graphs are frozen", U + "_expr/graph.py"), ("memoisation only of what a definition determines", U + SYS)],
     [("registries", "names, symbols, aliases and prefixes", U + SYS), ("caches", "resolved units, symbolic forms", U + UNIT)],
     ["UnitSystem.unit", "Unit.__eq__", "Unit.is_convertible_to", "Converter"],
     note="Seeded histories of 15-400 operations compared with the answers of pristine processes; families of look-alike strings provoke confusions.")
prop("C03", "A query cut short at any point damages nothing",
     "If a query is cut short at any point by an asynchronous exception (KeyboardInterrupt, MemoryError, exhausted stack, an exception from a signal handler), that exception reaches the caller unless the call still gives its correct answer. Afterwards the unit system and every object obtained from it answer every query as if the interrupted call had never been made, and other threads' calls in flight are unaffected.",
     ["fault_sequences", "crash_points", "inputs"], "every sequence of exceptions at every point of every query",
     "No test interrupts a call; the points are every line executed by resolution, parsing and expansion, including the first use of each lazily built table.",
     [SYS, UNIT, GR, "_grammar/_antlr4_runtime/atn/ParserATNSimulator.py"],
     [("memo fields are assigned only once the value is complete", U + SYS), ("parser state lives in objects made per call", U + GR)],
     [("shared prediction tables", "partially extended when an exception strikes", U + "_grammar/_antlr4_runtime/atn/ParserATNSimulator.py"), ("memo fields", "set at the end of a successful computation", U + UNIT)],
     ["every public query after the interrupted one"],
     note="Exceptions raised at seeded line events of the package, and real stack exhaustion at seeded depths; the aftermath is compared with pristine processes.")
prop("C04", "Reading a unit string depends on the string alone",
     "What a unit string denotes, or the syntax error it raises, is a function of the string only. It does not depend on the strings read before it (valid or malformed), on reads running concurrently or nested inside it, on earlier reads that were interrupted, or on whether it is the first ever read in the process.",
     ["histories", "schedules", "fault_sequences", "inputs"], "every string and every history, interleaving and interruption of reads, from cold and warm prediction tables",
     "The parser tests parse each string once, in one order, in one thread; its adaptive prediction tables are class-level, grow with every parse, and are never reset.",
     [GR, "_grammar/parser/udunits2Parser.py", "_grammar/_antlr4_runtime/atn/ParserATNSimulator.py", "_grammar/_antlr4_runtime/atn/LexerATNSimulator.py", "_grammar/_antlr4_runtime/PredictionContext.py"],
     [("prediction tables only memoise what the grammar determines", U + "_grammar/_antlr4_runtime/atn/ParserATNSimulator.py")],
     [("decisionsToDFA, sharedContextCache", "class-level tables of lexer and parser", U + "_grammar/parser/udunits2Parser.py")],
     ["pyudunits2._grammar.parse", "pyudunits2._grammar.normalize", "UnitSystem.unit"],
     note="Seeded schedules, interruptions and nested parses aimed at the prediction machinery, mostly from cold tables.")
prop("C05", "Loading the shipped database is all-or-nothing under I/O faults",
     "Whatever the reads of the database file do (fail to open, fail or get interrupted part-way, stop short, return zeroed blocks, be cut by an exception), loading either raises or returns a system whose contents are exactly those of the shipped file; reads that merely return fewer bytes, and the process's locale, never make it fail. A failed load leaves no file open and affects neither a later load nor systems already loaded, and a loaded system never needs the file again.",
     ["fault_sequences", "crash_points", "configurations"], "every sequence of read faults and exceptions during a load, every locale",
     "Tests only load an intact file once, from a warm page cache, in one locale.",
     ["_udunits2_xml_parser.py", SYS],
     [("the whole file is parsed before the system is built and returned", U + "_udunits2_xml_parser.py")],
     [("system under construction", "visible to nobody until complete", U + "_udunits2_xml_parser.py")],
     ["UnitSystem.from_udunits2_xml"],
     note="Read faults injected below libc (LD_PRELOAD) into the real file access, exceptions at line events; contents compared entry by entry with an independent reader's inventory and the fault-free load.")
prop("C06", "The command line reports success only for a complete answer",
     "A command-line run (with the interpreter's normal output buffering) exits with status 0 only if its complete answer was delivered to standard output: write errors, a full disk, a closed pipe, database read errors or an interruption at any point give a non-zero status otherwise. Whatever reached standard output is a prefix of the complete answer, and faults that lose nothing (short writes, short reads, interrupted system calls) change neither the output nor the status.",
     ["fault_sequences", "crash_points", "inputs"], "every sub-command and argument, every sequence of write faults, read faults and exceptions",
     "The command line has no tests under failing output; the default buffering hides write errors until the interpreter exits.",
     ["__main__.py", "_udunits2_xml_parser.py"],
     [("answers are computed before the first line is printed", U + "__main__.py"), ("errors propagate to the interpreter", U + "__main__.py")],
     [("stdout buffer", "flushed at exit", U + "__main__.py")],
     ["process exit status", "bytes on standard output"],
     note="The real main() in a fork with write(2)/read(2) faults injected below libc; interpreter shutdown is emulated and cross-checked with real interpreters.")
prop("C07", "Unit systems in one process are isolated from each other",
     "What is registered, replaced, looked up, interrupted or fails in one unit system never changes any answer of another unit system in the same process, even when both use the same names, symbols, prefixes and definition texts with different meanings.",
     ["histories", "schedules", "inputs"], "every set of systems with overlapping vocabularies and every interleaving of operations on them",
     "Tests use one system at a time; shared state keyed by text rather than by system would pass them all.",
     [SYS, UNIT, GR],
     [("registries are per system", U + SYS), ("units hold references to units, not names", U + UNIT)],
     [("registries", "per-system dictionaries", U + SYS)],
     ["UnitSystem.unit", "UnitSystem.add_unit"],
     note="Systems with the same vocabulary and other meanings, interleaved; each answer compared with a process in which only that system exists.")
prop("C08", "Registrations are visible at once, per name, and never undone",
     "Once registering or replacing a unit or prefix has returned, every later lookup of each of its names, symbols and aliases sees it until that identifier is registered again; lookups concurrent with a registration see, per identifier, the old or the new meaning in one order all threads agree on, and never fail because of it. A rejected registration changes nothing, and an interrupted one leaves each identifier at its old or its new meaning.",
     ["histories", "schedules", "fault_sequences"], "every interleaving of registrations, replacements (whole or partial), rejected registrations and lookups, with interruptions",
     "Tests register into fresh systems and look up once; nothing looks up an old alias, then the replaced name, or looks up while registering.",
     [SYS],
     [("registries are plain dictionaries updated per identifier after validation", U + SYS), ("a resolved definition is remembered in place", U + SYS)],
     [("registries", "names, symbols, aliases, prefixes", U + SYS)],
     ["UnitSystem.add_unit", "UnitSystem.add_prefix", "UnitSystem.unit", "UnitSystem.unit_by_name_or_symbol"],
     note="Histories checked for per-identifier linearizability against an independent registry model in rational arithmetic.")
prop("C09", "Definitions bind late: unresolvable now, resolvable once registered",
     "A unit may be registered before the units its definition needs: until they are all registered every lookup that needs it raises the resolution error, and as soon as they are registered the same lookup gives the right unit, whatever was asked, failed or was interrupted in between. Definitions that are malformed or refer to themselves make only the lookups that need them fail, every time and in finite time.",
     ["histories", "fault_sequences", "schedules"], "every order of registrations and lookups, with interruptions and concurrent callers",
     "Tests register dependencies first or load a complete database; no test asks too early and then again.",
     [SYS],
     [("definitions are resolved on demand, failures are not remembered", U + SYS)],
     [("resolved unit memo", "set only after complete success", U + SYS)],
     ["UnitSystem.add_unit", "UnitSystem.unit", "UnresolvableUnitException"],
     note="Seeded registration orders judged by an independent model of which definitions are resolvable at each moment.")
prop("C10", "Units and converters once obtained never change",
     "A unit, date unit or converter already obtained keeps the meaning it had when it was obtained (printed form, expansion, dimensionality, flags, conversions), whatever is afterwards registered, replaced, looked up, fails or is interrupted, even if the unit system itself is discarded, and however late it is first examined.",
     ["histories", "schedules", "fault_sequences"], "every history of registrations and replacements between obtaining an object and examining it",
     "Tests examine units immediately and never redefine what a unit was made from.",
     [SYS, UNIT],
     [("a unit holds the unit objects its identifiers resolved to", U + UNIT)],
     [("identifier references", "resolved when the unit is created", U + UNIT), ("cached symbolic definition", "computed on first use", U + UNIT)],
     ["Unit.expanded", "Unit.dimensionality", "Converter.convert"],
     note="Objects are taken, the registry is changed under them, and they are examined for the first time afterwards; values checked against the model's candidates and for constancy.")
prop("C11", "A shared converter is a pure function of the value",
     "A converter may be kept, shared between threads and used any number of times: each conversion returns what a fresh converter returns for that value alone, whatever conversions ran before, concurrently, nested or were cut short. It never modifies its argument, and later conversions never change a result returned earlier.",
     ["schedules", "histories", "fault_sequences", "inputs"], "every interleaving of conversions of numbers and arrays on shared converters",
     "Tests convert once per converter, with one kind of number.",
     [UNIT],
     [("the compiled expression has no state", U + UNIT)],
     [("compiled converter", "made at construction", U + UNIT)],
     ["Converter.convert", "Converter.expression"],
     note="Seeded schedules of conversions on shared converters over number types and arrays; arguments, results and earlier results checked.")
prop("C12", "Answers do not depend on the process",
     "The same query gives the same answer in every process, whatever its hash randomisation, locale, time zone, clock, environment variables, working directory or optimisation level (-O), and wherever in it the query is made (any thread, a handler, a finaliser, while importing, an exit handler); a query that fails in one process fails with the same error (type and message) in every other, also where there are several reasons to fail. In particular a string which several prefixes could claim always means the same thing.",
     ["configurations", "inputs"], "every hash seed, process environment and wall clock, every query",
     "The tests run in one process per session and never compare processes; sets of strings are iterated during loading, resolution and printing.",
     [SYS, "_udunits2_xml_parser.py", UNIT, "_expr/atoms.py"],
     [("registries are ordered dictionaries filled in file order", U + SYS)],
     [("prefix symbols", "collected into a set while loading", U + "_udunits2_xml_parser.py"), ("identifier sets", "iterated while resolving", U + "_expr/atoms.py")],
     ["every public query, compared across processes"],
     note="Each seed is a set of interpreters with different hash seeds and environments running the same query batch; answers are compared.")
prop("C13", "A query may be made from inside another on the same thread",
     "Code that runs in the middle of a query on the same thread (a signal handler, a finaliser, a trace function) may itself query the same unit system, units and converters. Both the inner and the outer call give the answers they give alone, and neither blocks.",
     ["schedules", "inputs"], "every pair of queries and every point of the outer one",
     "No test nests queries; any buffer, lock or table in mid-update would be observed only there.",
     [SYS, UNIT, GR],
     [("calls keep their state in locals", U + SYS), ("shared tables are consistent between bytecodes", U + "_grammar/_antlr4_runtime/atn/ParserATNSimulator.py")],
     [("memo fields and prediction tables", "re-entered while being filled", U + SYS)],
     ["every public query"],
     note="Whole operations executed inside others at seeded line and bytecode events.")
prop("C14", "Repeating queries costs constant time and memory",
     "A process that repeats the same operations for ever - queries, failing and interrupted ones included, redefinitions of a name, copies, loads - uses no more memory, open files or steps per round than after its first few rounds.",
     ["histories", "fault_sequences"], "every workload repeated any number of times",
     "Tests never repeat a workload or measure what it retains.",
     [SYS, UNIT, GR, "_grammar/_antlr4_runtime/atn/ParserATNSimulator.py"],
     [("caches are keyed by what is finite (definitions, grammar states)", U + "_grammar/_antlr4_runtime/atn/ParserATNSimulator.py")],
     [("memo fields and prediction tables", "bounded by definitions and grammar", U + SYS)],
     ["live objects, allocated blocks, descriptors and executed lines per round"],
     note="Rounds of one workload with faults; live objects, allocated blocks, descriptors and line events are compared between late rounds.")

prop("C15", "A forked process answers like a fresh one",
     "A process forked from this one at any moment (multiprocessing, a pre-forking server), even while other threads are in the middle of queries or of loading the database, or from a signal handler in the middle of a query, answers every query on the unit systems and objects it inherited exactly as a fresh single-threaded process does, and never waits for work that threads of its parent had begun. The parent answers as if it had not forked.",
     ["schedules", "fault_sequences", "inputs"], "every moment of every set of queries and loads at which a process may be forked",
     "No test forks. The child inherits whatever the other threads had half done, and the threads that would have finished it are gone.",
     [SYS, UNIT, GR, "_grammar/_antlr4_runtime/atn/ParserATNSimulator.py"],
     [("shared state is complete at every point and guarded by nothing that needs its owner", U + SYS)],
     [("memo fields and prediction tables", "inherited half-filled by the child", U + SYS)],
     ["every public query, in the child"],
     note="Really forks at seeded line and bytecode events of other threads' operations; sympy, numpy and lxml calls are atomic steps. Evidence, not proof.")

prop("C16", "The caller's process-wide settings are neither changed nor relied upon",
     "Calls leave the process they run in as they found it. Once no call is under way - whether calls returned, failed, were cut short at any point, overlapped in threads or ran inside one another - every process-wide or per-thread setting is what the caller had made it: recursion limit, garbage collection, warning filters, random generators, decimal and numpy contexts, signal handlers, locale, environment, working directory, standard streams, hooks, logging. Nothing is printed, and answers do not depend on these settings.",
     ["schedules", "fault_sequences", "configurations", "inputs"], "every schedule, interruption and nesting of calls, in processes with any such settings",
     "A setting saved, altered and put back looks right in every single-threaded test that runs to its end; overlapping or interrupted calls put back the wrong value, or none.",
     [UNIT, SYS, GR, "_udunits2_xml_parser.py"],
     [("no setting of the process is touched at all", U + UNIT)],
     [("warning filters, recursion limit, collector, contexts", "belong to the caller", U + UNIT)],
     ["35 process-wide and 5 per-thread settings after every call", "standard output and error"],
     note="Seeded schedules, interruptions and nestings in processes with seeded settings; settings compared whenever no call is under way. sympy, numpy and lxml calls are atomic steps. Evidence, not proof.")

prop("C17", "Copies and pickles mean the same",
     "A unit system, unit, date unit or error that is pickled (protocol 2 or later) and read back, in this process or in another with other hash randomisation, locale and zone, or deep-copied (converters too), at any moment - while other threads query it, after interrupted calls, from inside another call - answers every query as the original does, compares with the original's units as the original's own do, and works together with them. Copying changes no answer of the original, and what is registered in one of them afterwards is not seen by the other.",
     ["schedules", "fault_sequences", "histories", "inputs"], "every object that can be copied, every moment of copying, every history before and after it, and every reading process",
     "A copy made of a fresh object in a quiet process is right even where identity sentinels, shared tables, unfinished memos or hash-dependent state make others wrong.",
     [SYS, UNIT, "_unit_reference.py", "_expr/graph.py", "_datetime/__init__.py", "_exceptions.py"],
     [("units hold definitions, not registries or identities", U + UNIT), ("errors carry their text as arguments", U + "_exceptions.py")],
     [("registries and prefix tables", "owned by one system", U + SYS), ("memos", "copied in whatever state they are", U + UNIT)],
     ["copy.deepcopy, pickle.dumps/loads of UnitSystem, Unit, DateUnit, errors; copy of Converter"],
     note="Seeded schedules, interruptions and nestings of copies with queries and registrations, preemption inside the Python-written copy and pickle modules; a real second interpreter reads and answers. Evidence, not proof.")

PURE = "A pure function of its arguments: no schedule, clock, I/O, fault or history enters it, so simulation would only be input sampling under another name."
prop("C20", "Conversions agree with UDUNITS-2",
     "For every pair of convertible unit strings, converting a value gives what the UDUNITS-2 reference implementation gives, to floating-point accuracy.",
     ["inputs"], "all unit pairs and values", "Tests compare a few dozen pairs.",
     [UNIT], [("conversion expression", U + UNIT)], na=PURE + " It also needs the UDUNITS-2 C library as an oracle.")
prop("C21", "Conversion round-trips and composes",
     "Converting from a to b and back returns the original value, and converting a to b to c equals converting a to c, up to floating-point accuracy.",
     ["inputs"], "all convertible triples", "Tests check single conversions.",
     [UNIT], [("conversion expression", U + UNIT)], na=PURE)
prop("C22", "The grammar accepts exactly the UDUNITS-2 unit language",
     "Every string UDUNITS-2 accepts is accepted with the same meaning and every other string raises a syntax error.",
     ["inputs"], "all strings", "Tests list a few hundred strings.",
     [GR, "_grammar/udunits2Parser.g4"], [("generated parser", U + "_grammar/parser/udunits2Parser.py")], na=PURE)
prop("C23", "A printed unit reads back as the same unit",
     "Reading the printed form of a unit, or of its expansion, gives an equal unit.",
     ["inputs"], "all units", "Tests check some normal forms. (It does not hold today: parentheses are lost, see DESIGN.md.)",
     ["_expr/graph.py"], [("string forms of the expression graph", U + "_expr/graph.py")], na=PURE)
prop("C24", "Dimensionality is a homomorphism",
     "The dimensionality of a product, quotient or power is the sum, difference or multiple of its parts' dimensionalities, with zero orders removed.",
     ["inputs"], "all expressions", "Tests check a few expressions.",
     ["_expr/dimensionality.py", UNIT], [("dimensionality counter", U + "_expr/dimensionality.py")], na=PURE)
prop("C25", "Unit equality is an equivalence compatible with conversion",
     "Unit equality is reflexive, symmetric and transitive, and equal units convert into each other by the identity.",
     ["inputs"], "all units", "Tests compare selected pairs.",
     [UNIT], [("symbolic comparison", U + UNIT)], na=PURE)
prop("C26", "A converter exists exactly when the units are convertible",
     "Building a converter succeeds exactly when the units report being convertible, and otherwise raises the incompatibility error.",
     ["inputs"], "all pairs", "Tests check selected pairs.",
     [UNIT], [("dimensionality comparison", U + UNIT)], na=PURE)
prop("C27", "Every name in the shipped database resolves",
     "Every name, symbol and alias in the shipped database resolves to its definition, alone and with any prefix.",
     ["inputs"], "all identifiers of the file: a finite list to be enumerated", "Tests resolve a sample.",
     [SYS, "udunits2_combined.xml"], [("lookup", U + SYS)], na=PURE + " The finite list calls for enumeration.")
prop("C28", "Prefixes never shadow registered identifiers",
     "A registered identifier always wins over a reading of the same string as a prefix and a unit, and at most one prefix is taken.",
     ["inputs"], "all strings", "Tests check a handful of prefixed names.",
     [SYS], [("lookup order", U + SYS)], na=PURE)
prop("C29", "Only documented errors escape",
     "A query on any string either answers or raises the syntax, resolution or incompatibility error, never an internal error.",
     ["inputs"], "all strings", "Tests list known failures.",
     [SYS, GR, "_expr/normaliser.py"], [("error translation", U + GR)], na=PURE)

def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as fh:
        for p in P:
            fh.write(json.dumps(p) + "\n")
    have = [i for i, _ in CH if os.path.exists(os.path.join(HERE, "dst", "props", i.lower() + ".py"))]
    man = {
        "version": 1,
        "setup_cmd": "./run.sh setup",
        "checks": [
            {"property": i, "quick_cmd": f"./run.sh check {i} quick", "thorough_cmd": f"./run.sh check {i} thorough",
             "evidence_file": f"evidence/{i}.json",
             "technique": "deterministic simulation with fault injection (seeded search, replayable)",
             "level": "exploration", "level_note": n}
            for i, n in CH if i in have
        ],
        "not_applicable": NA + [{"property": i, "reason": "check under construction"} for i, _ in CH if i not in have],
        "notes": "No hooks in /repo: scheduling points are sys.monitoring events of the package's own code objects, "
                 "I/O faults are injected below libc with LD_PRELOAD. See DESIGN.md.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
        json.dump(man, fh, indent=1)
        fh.write("\n")

if __name__ == "__main__":
    main()
