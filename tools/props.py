#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json; the properties' texts are here."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = "src/osu_file/mod.rs"
G, ED, ME, DI = ("src/osu_file/%s/mod.rs" % s for s in ("general", "editor", "metadata", "difficulty"))
EV, TP, CO, HO = ("src/osu_file/%s/mod.rs" % s for s in ("events", "timingpoints", "colours", "hitobjects"))
NE = "src/osu_file/events/normal_event/mod.rs"
SB = "src/osu_file/events/storyboard/mod.rs"
SC = "src/osu_file/events/storyboard/cmds/mod.rs"
ST = "src/osu_file/events/storyboard/cmds/types.rs"
SS = "src/osu_file/events/storyboard/sprites.rs"
AS = "src/osu_file/events/audio_sample/mod.rs"
OB = "src/osu_file/osb/mod.rs"
TY = "src/osu_file/types.rs"
PA = "src/parsers.rs"
MA = "src/helper/macros.rs"
HE = "src/helper/mod.rs"
HT = "src/osu_file/hitobjects/types.rs"
TT = "src/osu_file/timingpoints/types.rs"
ALL = [M, OB, G, ED, ME, DI, EV, NE, SB, SC, AS, TP, CO, HO, PA, TY]

P = []
def prop(id, title, statement, over, text, why, files, mech, note, technique):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                  files=files, mech=mech, note=note, technique=technique))

T = "runtime monitoring: "

prop("C01", "Parsing any text ends in a value or an error, never a crash",
     "Reading any text as a beatmap file or storyboard file, or as any single section, line or value of one at versions 3 to 14, returns a value or an error. It never panics, overflows an integer or the stack, aborts or hangs.",
     ["inputs"], "every string, well-formed, damaged or arbitrary, and every supported version",
     "The tests read a few dozen files and lines, nearly all well-formed; a crash needs one particular damaged input out of an unbounded set.",
     ALL, [("section splitting and line counting", M), ("nom parsers of lines", PA), ("error instead of unwrap on every conversion", NE)],
     "Exploration. Built with overflow checks and debug assertions; every entry point is called on generated, damaged and arbitrary text in worker processes, whose panics, signals and hangs are the oracle. Trusts the generator for reach.",
     T + "panic, overflow, abort and hang monitor over hostile inputs")
prop("C02", "Writing, querying and showing errors never crashes",
     "Every value the library returned from parsing or that can be built through its public interface can be written at every version from 3 to 14, compared, cloned, hashed and queried through all its accessors without a panic. Every error it returned can be shown, with its line, for the text it came from.",
     ["inputs", "configurations"], "every value from accepted text or public constructors and setters; every error; every version from 3 to 14",
     "The tests write a handful of values at their own version and never show most errors.",
     ALL, [("VersionedToString of every type", M), ("accessors and setters of commands", SC), ("display of errors with their line", TY)],
     "Exploration. All writers and accessors are called at all versions for values out of generated and damaged text and out of constructors, with overflow checks on. A writer that needs an impossible value is documented in DESIGN.md.",
     T + "panic and overflow monitor over all writers, accessors and error displays")
prop("C03", "What is written is read back as the same value",
     "Writing a parsed beatmap or storyboard and reading the result gives an equal value: nothing is lost, added or changed, apart from what the file's version cannot express. Writing that value again gives the same text.",
     ["inputs", "configurations"], "every accepted text at every version from 3 to 14, and every accepted storyboard file",
     "The tests round-trip about fifteen fixed files; each field has its own writer, and most combinations of values, optional fields and versions never occur in those files.",
     ALL, [("Display and FromStr of the file", M), ("VersionedToString and VersionedFromStr of every type", HO)],
     "Exploration. Accepted texts (generated, real, damaged) are written, read and compared field by field through public accessors as well as with the library's equality.",
     T + "round-trip oracle over generated, real and damaged files")
prop("C04", "Files written in the usual form are reproduced exactly",
     "A well-formed file or storyboard without variables whose lines are in the form the library writes comes out of reading and writing with exactly the same text, except for the order and the spacing of key-value lines. In whatever layout the same content is read, the written text is the same.",
     ["inputs", "configurations"], "every well-formed document at every version from 3 to 14 in every layout",
     "The tests compare a few files through a comparison that ignores much of the layout.",
     ALL, [("writers of all sections", M), ("writers of hit objects and their optional fields", HO), ("writers of events and commands", SC)],
     "Exploration. The expected text comes from a renderer of the reference model that shares no code with the library.",
     T + "exact-text oracle from an independent renderer")
prop("C05", "Every field is read as the value the format gives it",
     "For every well-formed file each section, line and field is found in the parsed value, in order, with exactly the value the text gives it: numbers, flags, enumerations, texts, optional fields and their defaults, objects, events and nested commands. Nothing else is in the value.",
     ["inputs", "configurations"], "every well-formed beatmap and storyboard document at every version from 3 to 14",
     "The tests check single values for some fields; a swapped, shifted, truncated or defaulted field shows only for particular values and combinations.",
     ALL, [("line parsers of all sections", HO), ("conversion of codes and flags", HT), ("key-value parsing", MA)],
     "Exploration. Values read through the public interface are compared with the document the text was generated from.",
     T + "differential comparison of parsed values with a reference model")
prop("C06", "Errors name the line of the fault",
     "When a text with one faulty line is rejected, the error gives the zero-based index of that line in the text, whatever comes before it: blank lines, comments, line endings, a byte order mark, indentation, other sections. Showing the error with the text gives that line's one-based number and the error's message.",
     ["inputs"], "every single faulty line at every place of every well-formed beatmap, section or storyboard text in every layout",
     "The tests check about a dozen fixed positions; the index is summed up over sections, blank lines and commands by separate pieces of code.",
     [M, OB, EV, TY, PA, MA], [("line counting per section", M), ("line index of errors", TY), ("line counting in events", EV)],
     "Exploration. Faults are planted at known lines. One known finding (section ends on an exactly empty line) is listed by its exact signature; any other deviation is reported.",
     T + "planted-fault oracle for error positions")
prop("C07", "A faulty line is rejected with the error that names the fault",
     "A file that is well-formed but for one faulty field, missing field, unknown name or misplaced line is rejected as a whole. The error is of the section with the fault and says, in its kind and its message, which field is missing or invalid; a faulty line or value that is read on its own, and a faulty line of a storyboard file, give the same.",
     ["inputs", "configurations"], "every single fault (missing or invalid field, unknown key or type, wrong separator, duplicate key, wrong indentation, command without object) in every well-formed file at every version from 3 to 14",
     "The tests reject one or two invalid lines per section; a check that is dropped for one field or range accepts data silently.",
     ALL, [("context of nom parsers and conversion to errors", PA), ("error enums with their conversion from the parsers' context", TY), ("key-value errors", MA)],
     "Exploration. Each fault has the name of the error it has to give; kinds that are ambiguous in the format are excluded (DESIGN.md).",
     T + "single-fault injection with an expected-error oracle")
prop("C08", "Sections are found whatever their order, and a broken structure is an error",
     "Any subset of the known sections in any order, some of them empty, is read with exactly those sections present and with their content. A duplicate, unknown or malformed section header, content before the first section, or a missing or invalid version line is rejected with the error for it.",
     ["inputs", "configurations"], "every subset and order of sections with any well-formed content, and every single fault in the structure",
     "The tests use files with all sections in the usual order, and four broken structures.",
     [M, OB, PA], [("splitting of the text into sections", M), ("version line", M), ("sections of a storyboard file", OB)],
     "Exploration over random subsets, orders and structural faults; headers stand at the start of a line.",
     T + "structure generator with presence and error oracle")
prop("C09", "What exists in a version is read and written there, and only that",
     "Reading at a version gives exactly the sections and keys that exist in it, and writing at any version from 3 to 14 writes exactly what exists there, whatever version the value came from. What was written at another version is read back there as the same value, but for what that version cannot express.",
     ["inputs", "configurations"], "every well-formed document and every pair of source and target version from 3 to 14",
     "The tests look at one or two versions per gated field, and never move a whole file to another version.",
     [G, ED, HO, TP, EV, OB, CO, "src/osu_file/general/types.rs"], [("version checks of the fields", G), ("form of hit samples and sliders per version", HO), ("form of timing points per version", TP)],
     "Exploration against a reference table of versions; times within 24 ms of the 32-bit limits are left out for versions 3 and 4.",
     T + "reference version table as oracle over all version pairs")
prop("C10", "Files older than version 5 have their times moved by 24 ms, both ways",
     "Reading at versions 3 and 4 gives every time of hit objects, their ends, timing points, breaks, video and colour events exactly 24 ms later than the text says, and later versions give it as it is; backgrounds, samples, storyboard commands and everything else stay as they are. Writing at those versions undoes exactly that. A whole-number time that leaves the range of its type is an error; a decimal time is moved as far as the 28 digits of its type can say.",
     ["inputs", "configurations"], "every time value, including those at the limits of its type, in every kind of line, at every version from 3 to 14",
     "The tests cover a few lines at version 3 and 14; each kind of line adds the offset in its own place.",
     [HO, TP, NE, M], [("old version time offset", M), ("offset of hit objects", HO), ("offset of events", NE)],
     "Exploration. The same lines are read below and from version 5 on and all times compared exactly.",
     T + "differential oracle between versions on all times")
prop("C11", "Layout does not matter, content does: equality and hashes",
     "Two texts with the same content in different layout (line endings, byte order mark, blank lines, order of sections and of keys, spacing around values, indentation characters) give equal values. Texts that differ in any single value give unequal values, and equal timing points have equal hashes.",
     ["inputs"], "every well-formed document, every pair of layouts of it and every single change of its content",
     "The tests use one layout per file and compare values with hand-written ones.",
     ALL, [("line ending, BOM and whitespace handling", M), ("key-value separators", MA), ("derived equality", TP)],
     "Exploration over random pairs of layouts and single edits.",
     T + "metamorphic oracle over layouts and single edits")
prop("C12", "Storyboard commands belong to the object and level their indentation says",
     "For every sequence of command lines and every sequence of calls that add commands, each command ends up in the loop or trigger its indentation says, or in the object itself, in order. An indentation that no open loop or trigger allows, or a command without an object, is refused, and a refused call leaves the object unchanged; writing the commands gives lines that are read back to the same tree.",
     ["inputs", "histories"], "every sequence of commands and indentations, by text and by calls, at any nesting depth",
     "The tests have one or two nested sequences; the place is found by a recursive search over the last commands.",
     [EV, SB, SC, SS, NE], [("adding a command by its indentation", SB), ("reading of command lines", EV), ("writing with indentation", SC)],
     "Exploration against a reference stack machine; indentation of spaces and underscores, depth up to some dozens.",
     T + "reference stack machine checked online over command histories")
prop("C13", "Storyboard variables stand for their values, and only there",
     "A storyboard file with variables in its commands gives the same commands as one in which each variable is replaced by its value, each use independent of the others and of the order of definitions; other events and the type of a command have no variables. Reading what was written gives the same value again, with the variables kept, and another storyboard read later is unaffected.",
     ["inputs", "histories"], "every storyboard file whose commands use variables in whole fields, parts of fields or several fields; names that are not prefixes of each other, values without variables",
     "The tests have three files with variables.",
     [OB, EV, "src/osu_file/osb/types.rs"], [("substitution", EV), ("variables of the file", OB)],
     "Exploration. The file with variables is compared with its substituted twin; nested or prefixed names aren't claimed.",
     T + "metamorphic oracle: substituted twin")
prop("C14", "Time and memory stay proportional to the input, and memory is given back",
     "Making a text sixteen times as large in one dimension (lines, fields of a line, values, commands, nesting, blank lines, sections) makes reading, writing and comparing it allocate at most about sixteen times as much, and never blows up the time used. The memory is given back when the values are dropped, however often it's repeated. This does not apply to variables that stand for other variables.",
     ["inputs"], "every dimension in which a beatmap or storyboard text can grow, at any version",
     "The tests and benchmarks read fixed files and measure nothing about growth.",
     ALL, [("single pass over lines", M), ("adding commands by indentation", SB), ("no copies of the remaining input", PA)],
     "Exploration. Bytes allocated and bytes in use are counted by the harness's allocator (exact), CPU time is only judged far beyond linear, three times in a row.",
     T + "allocation and CPU-time metering under scaled inputs")
prop("C15", "Editing calls keep the limits of values and do just what they say",
     "For every sequence of editing calls on values (hit sounds, combo skips, volumes, effects, paths, decimals, lists of storyboard command fields, hit objects, samples), each call changes exactly what it names or is refused, for the reason the error names, and changes nothing. Limits hold afterwards (combo skip 0 to 7, hit sample volume 1 to 100, storyboard sample volume 0 to 100, only a list's last group incomplete), and the text written is read back as the state.",
     ["histories", "inputs"], "every sequence of public constructor, setter and push calls with every argument",
     "The tests call most setters never or once.",
     [HT, HO, ST, AS, TT, TY], [("checked constructors and setters", HT), ("lists with incomplete last group", ST), ("volume of a sample", AS)],
     "Exploration of random call sequences with a reference state after each call.",
     T + "reference state machine checked after every editing call")
prop("C16", "Timing arithmetic and effect flags agree with their definition",
     "The BPM of a timing point is 60000 divided by its beat length if it is uninherited, its slider velocity multiplier is -100 divided by the beat length if it is inherited, and there is none otherwise or if that cannot be calculated. Building a point from a BPM or multiplier gives those back, and effect flags are read, set and written independently of each other; bits that are no flags are kept until they are cleared, which leaves the flags.",
     ["inputs"], "every beat length, BPM and multiplier, including zero, negative, huge, tiny and not a number; every combination of flags",
     "The tests check two values.",
     [TP, TT], [("calculation of BPM and multiplier", TP), ("effect bits", TT)],
     "Exploration against floating point and exact decimal calculation; relative error up to 1e-9 in the usual range.",
     T + "numeric reference oracle over the value range")


prop("C17", "Comparing file texts ignores layout and nothing else",
     "The comparison of two file texts is an equivalence: two layouts of the same content (line endings, byte order mark, blank lines, comments between sections, order and spacing of key-value lines) are equal, and texts that differ in a value, a line, the order of lines in a section that has a line without a colon, a section's name or the version are not. Trimming a text twice is the same as once, and the assertion of equality fails exactly for texts that are not equal.",
     ["inputs"], "every pair of texts, and every single change of content in a text",
     "The other tests rely on this comparison, so a comparison that calls too much equal would hide other defects; it has no tests of its own.",
     [M], [("trimming to a canonical text", "src/helper/mod.rs and " + M), ("comparison and assertion", M)],
     "Exploration. Pairs have a known answer because both sides are laid out from the same or a changed document.",
     T + "metamorphic oracle over pairs of texts with a known answer")
prop("C18", "A built or edited document is written as the file that says the same",
     "A document built from public types, or read and then edited through them, is written as the text a reference writer gives for the same content, and reading that text gives the document back. An edit of one field, object, event, command or section changes only its own part of the text. Sections, objects, events and commands written on their own are written as in the file.",
     ["inputs", "histories"], "every document that the format can express, built in any way, and every sequence of edits of it",
     "The tests build next to no documents and edit none.",
     ALL, [("public fields and constructors of all sections", M), ("writers of all sections", HO), ("pushing commands to objects", EV)],
     "Exploration. A model is edited along with the document; what the format cannot express (DESIGN.md) is not built.",
     T + "reference model edited in step, checked after every edit")
prop("C19", "Reading depends on the text alone",
     "Reading the same text gives the same value or error whenever it is done: again, after reading other texts, on another thread, at the same time as others, and for a section or line on its own or within a file. Adding a storyboard file changes only the storyboard part of a beatmap, replaces what was there, and leaves the beatmap as it was if it is refused; before version 14 there is none.",
     ["inputs", "schedules", "histories"], "every text, every order and overlap of reads, every sequence of added storyboards",
     "The tests read each file once, on its own.",
     [M, OB, EV, MA], [("FromStr of the file", M), ("append_osb", M), ("state of the event parser", EV)],
     "Exploration. Reads are repeated in other orders, threads and surroundings, with all pairs of results compared.",
     T + "replay and concurrency oracle over repeated reads")
prop("C20", "An animation's frames are named after its file and number",
     "The frame file names of an animation are as many as its frames, in order from number 0, each the name of its file without folder and quotes and with the frame's number before the extension. A sprite can be built from a relative path and keeps it, and not from an absolute one.",
     ["inputs"], "every path (folders, several dots, none, dots first or last, any characters, in quotes or not) and every frame count",
     "One test of four frames of a plain name.",
     [SS], [("frame file names", SS), ("path check of a sprite", SS)],
     "Exploration against a direct definition. Frame counts up to 5000, paths with / only.",
     T + "definitional oracle over paths and frame counts")
prop("C21", "Defaults exist where the field exists and fit what is written",
     "Every type with a default has it in exactly the versions that have the field, it is the documented value, it is written as that value's text and the text is read as it again. A new file or section is empty, and a field that is left out of a line or section is absent, or has its default where it is needed.",
     ["configurations", "inputs"], "every type with a default at every version from 3 to 14; every line with optional fields left out",
     "No test calls a default.",
     [G, "src/osu_file/general/types.rs", HO, HT, TT, AS, SS, MA], [("versioned defaults of fields", G), ("default hit sample", HT), ("optional fields", NE)],
     "All types and versions are covered; lines are explored.",
     T + "table oracle over all defaults and versions")
prop("C22", "Codes and names stand for exactly one meaning each",
     "Every numeric code and name of an enumeration (modes, countdowns, sample sets, layers, origins, loop types, easings, curves, triggers, parameters, object types, hit sounds) is read as its meaning and written as the same code or name, at each version that has it. Any other code or name is refused, or kept unchanged where the format allows unknown codes, and a number made into a value gives that number back.",
     ["inputs", "configurations"], "every code and name of every enumeration at every version from 3 to 14, and every other text in its place",
     "The tests use a few of the codes; a swapped pair of codes reads and writes consistently and shows only against the format's table.",
     ["src/osu_file/general/types.rs", "src/osu_file/events/normal_event/types.rs", "src/osu_file/events/storyboard/types.rs", SS, AS, HT, TT],
     [("codes and names of enumerations", "src/osu_file/events/storyboard/types.rs"), ("origins and layers", SS), ("object type bits", HO)],
     "All entries at all versions are covered; other texts are explored.",
     T + "table oracle over all codes, names and versions")

prop("C23", "No input, call or thread makes the library do anything undefined",
     "Reading, writing, comparing, editing and dropping values never reads or writes memory out of bounds, after it was freed or before it was written, and never has a data race, whatever the input. Every public value and error can be sent to other threads and shared by them, and using one from several threads at once gives what using it from one does.",
     ["inputs", "schedules"], "every text, every history of edits and every interleaving of threads that read, write, copy, compare and drop the same values",
     "Undefined behaviour shows in a test only by luck, and the tests have a single thread each and share no values.",
     ALL + ["src/helper/mod.rs"], [("reading of whole files", M), ("slicing of fields and lines", PA), ("errors with the text they are about", TY), ("values shared by threads", M)],
     "Exploration under AddressSanitizer, ThreadSanitizer (with an instrumented standard library) and Miri. The crate has no unsafe code today; its dependencies have, and it is what a change that adds some has to keep.",
     T + "AddressSanitizer, ThreadSanitizer and Miri over generated workloads and threads")

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "observe_at": ["public interface of the crate"], "hook_needed": None},
        }, ensure_ascii=False) + "\n")
checks = [{
    "property": p["id"],
    "quick_cmd": f"bash run.sh {p['id']} quick",
    "thorough_cmd": f"bash run.sh {p['id']} thorough",
    "evidence_file": f"evidence/{p['id']}.json",
    "technique": p["technique"], "level": "exploration", "level_note": p["note"],
} for p in P]
json.dump({
    "version": 1, "setup_cmd": "bash build.sh",
    "hooks": {"guard": "none", "enable": "no hooks: everything is observed through the crate's public interface, the allocator and the worker processes", "source_commits": []},
    "checks": checks, "not_applicable": [],
    "notes": "One harness binary (harness/) is built against the crate in /repo's working tree by every command; DESIGN.md describes it.",
}, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
