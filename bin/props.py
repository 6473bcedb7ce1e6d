#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = lambda *a: ["src/" + x for x in a]
def m(name, where): return {"name":name,"where":"src/" + where}
P = []
def p(id, title, statement, over, q, tests, files, mech, observe, state=()):
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":q},"why_tests_cant":tests,
              "anchors":{"files":F(*files),"state":[{"name":n,"meaning":d,"where":"src/" + w} for n, d, w in state],"mechanism":mech,"observe_at":list(observe),"hook_needed":None}})

p("C01", "A saved project loads back as the same project",
  "For every project a user can build or reach by any sequence of edits, saves and loads, saving it and loading the result gives a project with the same metadata, colours, screens, custom views, libraries, resources and icon. Nothing is lost, added, reordered or moved to another place, whichever way the six files are handed over.",
  ["inputs","histories"], "every project over identifier-like distinct names, every sequence of edits, saves and loads (with the resource files or without)",
  "The tests load one or two fixed projects and look at a few fields; none of them edits, saves and loads again.",
  ["api/mod.rs","api/screen.rs","api/view.rs","api/block.rs","parser/mod.rs"],
  [m("loading","api/mod.rs TryFrom<ParsedSketchwareProject>"),m("saving","api/mod.rs From<SketchwareProject> for ParsedSketchwareProject"),m("reading and writing the six files","parser/mod.rs parse / TryInto<RawSketchwareProject>")],
  ["SketchwareProject (api) after load","RawSketchwareProject after save"],
  [("project","everything a user sees of a project","api/mod.rs SketchwareProject")])
p("C02", "Writing a data file and reading it gives the same data",
  "For each of the six data files (project, file, library, resource, view, logic) and every model of it, the written text says exactly what the model says, entry by entry, under the format's own headers and keys. Reading that text back gives an equal model.",
  ["inputs"], "every model of every data file whose names fit the format (no line breaks, no separators inside names)",
  "The tests reconstruct a handful of fixed texts; optional keys, empty sections, several screens, special characters and extreme numbers are not met.",
  ["parser/project.rs","parser/file.rs","parser/library.rs","parser/resource.rs","parser/view.rs","parser/logic.rs","parser/serde_util.rs"],
  [m("Parsable::reconstruct of each file","parser/*.rs"),m("Parsable::parse of each file","parser/*.rs")], ["reconstruct() text","parse() of it"])
p("C03", "Reading a data file keeps every entry in its place",
  "Every entry of a well-formed data file ends up, with its values and in its order, in the section, screen, layout or container whose header stands above it. Blank lines, repeated headers, sections in any order and files without a final line break change nothing, and writing what was read keeps all of it.",
  ["inputs"], "every sequence of headers, entries and blank lines that makes a well-formed file",
  "The tests read a few short well-formed snippets in the usual section order.",
  ["parser/file.rs","parser/library.rs","parser/resource.rs","parser/view.rs","parser/logic.rs"],
  [m("section walkers","parser/{file,library,resource,view,logic}.rs parse"),m("header recognition","parser/logic.rs, parser/view.rs")], ["parse() model","reconstruct() of it"],
  [("section","which section the next entry belongs to","parser/file.rs, library.rs, resource.rs, view.rs, logic.rs")])
p("C04", "Written block code encodes the same program",
  "For every program of nested blocks, the stored list of blocks is well formed: ids are distinct, every block but the first is referred to exactly once, and no reference dangles. Following its references from the first block gives the program back: the same blocks in the same order, sub stacks and arguments, with the same spec, kind and colour.",
  ["programs"], "every program: any nesting of stacks, block arguments and literals",
  "The tests convert three fixed programs; nesting inside both sub stacks, arguments next to sub stacks and literals among them are not met.",
  ["api/block.rs"], [m("numbering and linking","api/block.rs Into<BlockContainer> for Blocks"),m("argument references","api/block.rs flatten arguments")], ["BlockContainer made from Blocks"],
  [("next id","the id the next stored block gets","api/block.rs")])
p("C05", "Read block code is exactly the stored program, or refused",
  "A well-formed stored list of blocks is read as exactly the program its references describe, whatever the ids and the order of the rows. A list whose references dangle, loop or are shared, whose ids or argument texts are malformed, or whose arguments do not fit the spec is refused, and reading never panics or hangs.",
  ["programs","inputs"], "every list of stored blocks with any references among them",
  "The tests read three well-formed lists; no malformed list at all.",
  ["api/block.rs","parser/logic.rs"], [m("following references, taking each block once","api/block.rs TryFrom<BlockContainer> for Blocks"),m("argument texts","api/block.rs BlockContent::parse")], ["Blocks::try_from"],
  [("blocks not yet taken","a block can be used once","api/block.rs")])
p("C06", "A block's spec text and its arguments fit each other",
  "A block's content keeps the words and parameters of its spec in order: rendering gives the spec back, and the n-th argument given or taken belongs to the n-th parameter, is read by that parameter's kind, and leaves the others alone. Arguments that do not fit are refused, the content unchanged.",
  ["inputs","histories"], "every spec, every list of arguments, every sequence of operations on a content",
  "The tests parse about ten fixed specs once each; sequences of operations and misfits are not met.",
  ["api/block.rs"], [m("parse, parse_wo_params, apply_args, apply_blocks, get_args, take_args, to_string","api/block.rs BlockContent")], ["BlockContent","its rendered text"],
  [("content","words and parameters of a spec","api/block.rs BlockContent")])
p("C07", "The tree of views survives being stored as a list",
  "Whatever a layout has been edited into, the stored list of its views names each view once, after its parent, with its real parent's id and kind, siblings in order. Reading that list, or any list in which parents come first, rebuilds exactly the tree, and a list with a view without a known parent is refused.",
  ["histories","inputs"], "every tree of views, every sequence of additions, removals, moves and kind changes; every list of views",
  "The tests use two fixed layouts without edits.",
  ["api/view.rs","parser/view.rs"], [m("flatten_views","api/view.rs"),m("parse_raw_layout","api/view.rs"),m("find_id, find_id_mut","api/view.rs")], ["flatten_views","parse_raw_layout","written layout text"],
  [("children","views inside a view","api/view.rs View")])
p("C08", "A view shows its stored values, and its edits are stored",
  "Reading a view shows each stored value under its own name (sides, sizes, gravity, and what belongs to its kind), and storing a view writes each shown value back to its own place, with the type of its kind. What a view does not show is stored as it was read.",
  ["inputs","histories"], "every stored view of every kind with any values, every sequence of edits",
  "The tests check a few values of one kind of view; swapped or dropped fields of the others go unnoticed.",
  ["api/view.rs"], [m("From<AndroidView> for View","api/view.rs"),m("ViewType::from_view, apply_values_to_view, get_type_id","api/view.rs"),m("flatten_views","api/view.rs")], ["View","AndroidView after flattening"],
  [("raw view","what was read and is not shown","api/view.rs View")])
p("C09", "Code stays with the event or moreblock it belongs to",
  "After loading, every declared event and moreblock holds exactly the code stored under its own name and target, and code of no other; an event without stored code has none. Saving stores each one's code where loading looks for it, and the activity's creation event exists exactly when its code does, declared or not.",
  ["histories","inputs"], "every set of events and moreblocks with distinct containers, in any order, with stray or missing containers, and every sequence of edits",
  "The tests look at one project's events; none adds, removes or renames events, or has stray containers.",
  ["api/screen.rs","api/mod.rs","parser/logic.rs"], [m("container names","api/screen.rs get_block_container_id"),m("collecting events","api/screen.rs Screen::from_parsed"),m("storing events","api/mod.rs, api/screen.rs into_parser_event")], ["Screen.events, Screen.more_blocks","logic file"],
  [("containers","code by container name","parser/logic.rs ScreenLogic.block_containers")])
p("C10", "The resource store keeps one resource per id",
  "After any sequence of additions and removals an id stands for at most one resource, found with the file and the type it was added with until it is removed. Adding under a taken id, or a file that does not exist, is refused and changes nothing; so is removing what is not there. A store that came with a loaded project may hold an id under several types: looking it up finds one of them, and removing takes away the one it hands back and no other.",
  ["histories"], "every sequence of additions, look-ups and removals over all types and kinds of files, files appearing and disappearing",
  "No test touches the store.",
  ["api/mod.rs"], [m("put_resource, get_resource, remove_resource","api/mod.rs Resources")], ["Resources getters"],
  [("images, sounds, fonts","the three maps","api/mod.rs Resources")])
p("C11", "Resources get exactly the files that belong to them",
  "Loading gives each resource the file with its full name and its type among the files handed over, refuses the project if there is none or a file is misplaced or missing on disk, and generates a fresh id for each only when no files were handed over. Saving hands over exactly the files of the resources and the icon, and names each resource by its file.",
  ["inputs","histories"], "every list of files (order, extras, absences, types, kinds of reference) against every list of resources",
  "The tests never load a project with resource files.",
  ["parser/mod.rs","api/mod.rs"], [m("TryFrom<Vec<ResourceFileWrapper>> for ResourceFiles","parser/mod.rs"),m("matching by full name","api/mod.rs TryFrom"),m("get_full_name","parser/mod.rs")], ["Resources after load","resource_files after save"],
  [("resource files","files by full name and type","parser/mod.rs ResourceFiles")])
p("C12", "Encryption is Sketchware's AES and decryption undoes it",
  "Encrypting any bytes gives their AES-128-CBC encryption with Sketchware's key and initial vector and PKCS#7 padding, and decrypting gives the bytes back. Anything that is not such an encryption is refused without a panic, and the file variants read and write exactly the named files.",
  ["inputs"], "every byte string, as data and as cipher text; every pair of input and output files",
  "The tests decrypt and encrypt one short text.",
  ["lib.rs"], [m("encrypt_sw, decrypt_sw_encrypted and the file variants","lib.rs")], ["returned bytes","files on disk"])
p("C13", "Malformed data is refused with an error",
  "Any text whatsoever handed in as one of the data files, as block code or as a layout is either read or refused with an error: no panic, no endless loop. A file with an entry that is not well formed under its header is refused rather than read without it.",
  ["inputs"], "every text for every data file; every list of blocks or views; every combination of six files",
  "The tests only read well-formed texts.",
  ["parser/*.rs","api/*.rs"], [m("error results of the parsers","parser/*.rs"),m("error results of loading","api/*.rs")], ["parse() and try_from() results"])
p("C14", "Kind codes and kinds correspond one to one",
  "Every numeric, textual or colour code of components, events, variables, blocks, block categories and view kinds is read as the kind the format defines for it, and a code it does not define is refused. Writing a kind gives the code it is read from, with its parameter where it has one.",
  ["inputs"], "every code of every table (all of them are enumerated), every parameter",
  "The tests meet a few codes of each table.",
  ["api/component.rs","api/screen.rs","api/block.rs","api/view.rs","parser/logic.rs","parser/file.rs"], [m("ComponentKind, EventType, BlockType, BlockCategory, ViewType, VariableType, ActivityOptions conversions","api/*.rs, parser/*.rs")], ["conversion results"])
p("C15", "Colours, dates, flags and numbers are stored exactly",
  "A colour keeps its four channels through every constructor, text and stored form; a date is stored as the fourteen digits of its UTC instant and read back to the second; options, sizes, switches and enumerations are stored as the numbers or words the format defines for them. A word, code or date the format does not define is refused.",
  ["inputs"], "every colour, every instant from 1970 to 9999, every option set, every value of every enumeration and every value outside",
  "The tests check two colours, one date and a few enumerations.",
  ["color.rs","parser/serde_util.rs","parser/file.rs","parser/view.rs","parser/project.rs"], [m("Color","color.rs"),m("date format, flags as numbers","parser/serde_util.rs"),m("options as bits","parser/file.rs ActivityOptions"),m("sizes and enumerations","parser/view.rs")], ["stored JSON values","read values"])
p("C16", "Library settings survive loading and saving",
  "Loading shows a library as enabled exactly when its entry says so, with its settings under their own names; saving stores an enabled library with its settings where loading finds them and a disabled one as disabled. The four libraries never mix, and an entry that says neither yes nor no is refused.",
  ["inputs","histories"], "every combination of enabled and disabled libraries with any settings, every sequence of changes",
  "The tests load one project whose libraries are disabled.",
  ["api/mod.rs","parser/library.rs"], [m("library conversion both ways","api/mod.rs"),m("library sections","parser/library.rs")], ["Libraries","library file"])
p("C17", "Each of the six files goes to its own place and is blamed by name",
  "However the six files are handed over (constructors, encrypted or not, with or without resource files, as one value or as six), each is treated as what it was handed over as, and comes out again as that when written. When one cannot be read, loading fails and the error names a file that cannot be read.",
  ["inputs","fault_sequences"], "every set of six files with any of them damaged or exchanged, through every entry point",
  "The tests only use sound files through one entry point.",
  ["parser/mod.rs"], [m("RawSketchwareProject constructors","parser/mod.rs"),m("SketchwareProject::parse_from, parse, parse_wo_res, TryInto","parser/mod.rs")], ["parsed models","error variants"])
p("C18", "A screen is put together from the parts that carry its name",
  "Every listed activity becomes a screen, in order, made of the layout, code, floating button and options stored under its name and of nobody else's, wherever those stand in their files. A part that is missing is taken as empty, and such a screen saves and loads like any other.",
  ["inputs","histories"], "every set of activities, layouts, code and floating buttons with any of them missing, left over or in another order, and every sequence of screens being added and removed",
  "The tests load one project in which every part is there.",
  ["api/mod.rs","api/screen.rs"], [m("matching by name","api/mod.rs TryFrom"),m("the name code is stored under","api/mod.rs"),m("defaults for missing parts","api/mod.rs, parser/logic.rs ScreenLogic::new_empty")], ["screens","file, view and logic files after save"])
p("C19", "Loading and saving without an edit changes nothing",
  "Loading the six files of a project and saving it without an edit in between gives six files that say the same, value by value, including everything a user cannot see or edit. The resource files handed over come out again.",
  ["inputs","histories"], "every set of six sound files, any number of rounds",
  "No test saves what it has loaded.",
  ["api/mod.rs","api/screen.rs","api/view.rs","api/component.rs"], [m("keeping what is not shown","api/view.rs raw view, api/mod.rs"),m("saving","api/mod.rs")], ["six files before and after"])
p("C20", "Saving writes the same bytes, and an edit only touches its files",
  "Saving the same project twice writes the same six texts byte for byte, and so does saving it again after loading what was saved. After an edit only the texts that hold what was edited may differ.",
  ["histories"], "every sequence of edits, saves and loads",
  "No test saves twice, and none compares the files an edit should leave alone.",
  ["api/mod.rs","api/block.rs","parser/*.rs"], [m("ordered maps throughout","api/mod.rs, parser/*.rs"),m("block ids from a fixed start","api/block.rs")], ["six texts of two saves"])

p("C21", "Each piece of a data file reads and writes on its own",
  "Every piece with its own reader and writer (an entry of any kind, a layout, a pool of variables, lists, components, events or moreblocks, a container of blocks and its header) is written as text that says exactly what it holds, and that text is read back as an equal piece. A reader takes the entries up to the first blank line, keeps their order, leaves the lines after it to its caller, and refuses a piece with a malformed entry.",
  ["inputs"], "every value of every piece, every run of lines",
  "The tests reconstruct only whole files or a single fixed entry; what a reader leaves of its input is never looked at.",
  ["parser/file.rs","parser/library.rs","parser/resource.rs","parser/view.rs","parser/logic.rs"],
  [m("Parsable of each piece","parser/*.rs"),m("parse_iter","parser/view.rs Layout, parser/logic.rs pools"),m("block container headers","parser/logic.rs BlockContainerHeader")], ["reconstruct() text","parse() of it","what parse_iter leaves in its iterator"])
p("C22", "A refusal points at what was refused",
  "When something cannot be read, put together or stored, the error names a thing that is really wrong with it: the file, section, screen and line of the first malformed entry and its text, the block id that leads nowhere, the argument, parameter or type that is not understood, the view without a parent, the resource that is missing or taken. Its message spells that thing out.",
  ["inputs","fault_sequences"], "every malformed text, block list, layout, content, project and resource, at every position",
  "The tests only look at successes; no test looks into an error.",
  ["parser/*.rs","api/*.rs"], [m("error types and where they are made","parser/*.rs, api/*.rs")], ["fields and messages of every error in the chain"])

p("C23", "What is made from nothing holds what it was given",
  "A block, block content, component, view, event, moreblock, resource reference, list type, colour, gravity or project made through the crate's own constructors, builders and conversions holds exactly the values given, each in its place, sub stacks included. Whatever is not given starts as documented: empty stacks, pools and resources, no icon, the standard view values, Sketchware's palette, opaque black. A block keeps its category, and a program put together that way is stored as that program.",
  ["inputs","programs"], "every sequence of constructor and builder calls with any values",
  "The tests build nothing: none calls a constructor of a block, component, view or project.",
  ["api/block.rs","api/mod.rs","api/screen.rs","parser/logic.rs","parser/view.rs","parser/mod.rs","parser/project.rs","color.rs"],
  [m("Block::new, new_1substack, new_2substack, BlockContentBuilder","api/block.rs"),m("Component::new*, pool defaults, ScreenLogic::new_empty","parser/logic.rs"),m("AndroidView::new_empty, defaults, Gravity","parser/view.rs"),m("SketchwareProject::new, Resources::new_empty","api/mod.rs"),m("into_parser_more_block, apply_to_parser_event","api/screen.rs")], ["public fields of what was made","BlockContainer made from it"],
  [("bench","content being built, blocks made so far","api/block.rs BlockContentBuilder, Blocks")])

NOTE = {
 "C23":"Every way of making block code in four (thorough: five) constructor calls, every gravity, view kind and number of parameters, random values.",
 "C22":"Every short file and piece over the alphabets, every two-row block list, every content history to a small depth, random damage; where several things are wrong any may be named.",
 "C01":"Explored sessions of the model project and random sessions; trusts the harness's translation of API values and TLC.",
 "C02":"Random models of all six files plus every short file of the model's alphabet; floating point values compared by value.",
 "C03":"Every file of up to three lines over the alphabet plus random long files.",
 "C04":"Every program of up to three (thorough: four) blocks over the model's shapes plus random deep ones.",
 "C05":"Every two-row list with any references, every model program re-numbered and shuffled, plus random departures.",
 "C06":"Every history of content operations to a small depth over the model's alphabet, plus random ones.",
 "C07":"Every history of three (thorough: four) edits of the model tree plus random trees.",
 "C08":"As C07 with values compared, plus random stored views of every kind.",
 "C09":"Explored sessions over events and moreblocks plus random logic files with stray and missing containers.",
 "C10":"Every history of three operations over two ids, three types and three kinds of files plus random ones.",
 "C11":"Explored sessions over resources plus random file lists.",
 "C12":"The specification computes AES itself; all lengths up to 33 (thorough: 65) and random bytes.",
 "C13":"Every short file of the alphabet, every two-row block list, random damage; texts the format leaves open are only required not to panic.",
 "C14":"All numeric codes 0..255 and the listed textual ones enumerated; random parameters.",
 "C15":"Calendar checked against the specification day by day on a grid; random values of the rest.",
 "C16":"Explored sessions over library settings plus random library files.",
 "C17":"Every combination of up to two damaged or exchanged files through every entry point, plus random ones.",
 "C18":"Every combination of present, missing and left-over parts of two screens, explored sessions, random ones.",
 "C19":"Random sound projects and explored sessions; documented losses are known findings with their own inputs.",
 "C21":"Every run of up to three (thorough: four) lines over an alphabet per piece plus random pieces and damage.",
 "C20":"Explored sessions and random sessions with repeated saves; texts compared by digest.",
}
manifest = {"version":1,"setup_cmd":"python3 bin/check.py --setup","checks":[
  {"property":q["id"],"quick_cmd":f"python3 bin/check.py {q['id']}","thorough_cmd":f"VERIF_TIER=thorough python3 bin/check.py {q['id']}","evidence_file":f"evidence/{q['id']}.json",
   "technique":"TLA+ specification: TLC explores it, its behaviours are replayed into the crate, and recorded traces are checked against it by TLC","level":"model_checking","level_note":NOTE[q["id"]]} for q in P],
  "not_applicable":[],"notes":"No hooks in /repo: the harness uses the public API only. See DESIGN.md."}
open(os.path.join(ROOT,"properties.jsonl"),"w").write("".join(json.dumps(q, ensure_ascii=False) + "\n" for q in P))
json.dump(manifest, open(os.path.join(ROOT,"MANIFEST.json"),"w"), indent=1, ensure_ascii=False)
