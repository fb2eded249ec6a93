"""Writes properties.jsonl (kept as code because the lines are long)."""
import json, os
P=[]
H="hyperstate/hyperstate.py"; S="hyperstate/serde.py"; L="hyperstate/lazy.py"; SC="hyperstate/schedule.py"; M="hyperstate/msgpack_torch.py"
V="hyperstate/schema/versioned.py"; R="hyperstate/schema/rewrite_rule.py"; CH="hyperstate/schema/schema_checker.py"; CG="hyperstate/schema/schema_change.py"; T="hyperstate/schema/types.py"; HP="hyperstate/schema/help.py"; CM="hyperstate/command.py"
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=None))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    assert len(title)<=80,(title,len(title)); P.append(d)

p("C01","Dumped configs load back as the same value",
"For every dataclass made of the supported field types (int, float, str, bool, Optional, List, Tuple, Dict, Literal, Enum, nested dataclasses, Unions of dataclasses) and every value of it, loading what `dump`/`dumps` wrote yields an equal value whose every part has the same Python type. Dumping the loaded value again produces the identical text. Writing to a file and returning a string give the same text, and dumping changes neither the object nor anything else.",
["inputs","programs"],"all type structures over the supported field types; all values, including escapes, control and non-ASCII characters, tiny, huge, negative and non-finite floats, integers of any size, empty containers, None",
"the tests dump a handful of fixed values of four fixed classes; the guarantee is over all classes and values, where quoting, number formatting and container nesting interact",
[S,H],[("asdict / to_ron / dumps",S),("from_dict / loads / load",S),("dump, dumps, load, loads",H)],["text returned by dumps, file written by dump, object returned by load/loads"])

p("C02","Eliding defaults loses nothing and keeps every non-default",
"For every config value, `dump`/`dumps` with `elide_defaults=True` writes text that loads back as an equal value of the same types. At every nesting level a scalar field (64-bit int, finite float, str, bool) that equals its declared default is omitted from the text, and a field whose value differs from its default is present.",
["inputs","programs"],"all dataclasses with and without defaults (plain or factory) at any nesting depth, all values, with the values drawn equal to and different from the defaults",
"elision is exercised by the tests only through one upgrade path; which fields may be dropped depends on every combination of default, value and nesting",
[H,S],[("ElideDefaults.modify_dataclass_attrs",H),("_try_create_defaults",S)],["text of dumps(elide_defaults=True)"])

p("C03","Typed loading: a conforming value or an error, never something else",
"For every dataclass and every well-formed RON document, loading either raises an exception or returns a value that conforms to the declared types recursively. It raises for unknown fields, missing fields without default, wrong tuple lengths, values outside a Literal or Enum and values of the wrong kind. When the document describes a conforming value, loading returns exactly that value, where the only conversions between kinds are the exact numeric ones (int to float, integral float to int, numeric string to number).",
["inputs","programs"],"all type structures and all documents: conforming ones in every surface form (class names present or absent, map or struct notation, numbers written as int, float or string) and mutated non-conforming ones",
"the tests load only well-formed configs of fixed classes; which malformed documents slip through is a question over all pairs of type and document",
[S,H],[("from_dict",S),("is_optional",S)],["value or exception of load/loads"])

p("C04","Absent fields take their declared defaults, freshly made",
"Loading a document (or nothing) in which some fields are absent gives every absent field its declared default, at any nesting depth, and nested dataclasses without default are built from their own defaults. A missing field that has no default and cannot be built that way is an error naming that field. Values created from default factories are never shared between two loaded objects or with the class.",
["inputs","programs","configurations"],"all dataclasses with nested required and defaulted fields and all subsets of present fields, loaded from text, from a file, and from no file",
"tests cover two fixed classes; the guarantee ranges over every subset of absent fields at every depth",
[S,H],[("_try_create_defaults",S),("_typed_load",H)],["fields of loaded objects, identity of mutable defaults"])

p("C05","ignore_extra_fields drops unknown fields at any depth, nothing else",
"With `ignore_extra_fields=True` (loads, StateManager), a document with any number of unknown fields added to any dataclass in it, at any depth and inside lists, tuples, dicts, optionals and unions, loads to the same value as the document without them. Known fields stay typed, required fields stay required, and without the option the same document is rejected.",
["inputs","programs"],"all conforming documents and all insertions of unknown fields",
"no test sets the option on nested or container types",
[S,H],[("from_dict(ignore_extra_fields)",S),("StateManager.__init__/_load_config/_load_state",H)],["value or exception of loads / StateManager.config"])

p("C06","Overrides equal editing exactly those fields of the config",
"Loading with overrides `path.to.field=value` gives the same config, or is rejected, as loading the document edited in those fields, in order with the last one winning. Overrides reach any depth, create absent or None nested dataclasses on the way, and keep everything after the first `=`. A str field takes the raw text, a bool field its true/false words, and any other field a RON literal under the same conversions as a file, in which bare identifiers may stand for strings.",
["inputs","programs","configurations"],"all dataclasses, all base documents (including none, and ones where the path is absent, None or partial), all sequences of overrides over all nested paths",
"three fixed override lists are tested on one class",
[H,CM],[("OverridesDeserializer.deserialize",H),("Struct.find_field",T)],["object returned by load/loads with overrides, StateManager.config"])

p("C07","Bad overrides are rejected and all unknown names are reported",
"A list of overrides with a name that is not a field of the config is rejected with an error naming each and every such override and no others. An override without `=`, a bool override that is not a bool word, or a value that does not fit the field's type is rejected too. A rejected load never returns a config.",
["inputs","programs"],"all lists mixing valid overrides with misspelled, too long, too short and ill-typed ones at any depth",
"the tests try one unknown field and one pair",
[H],[("OverridesDeserializer.deserialize",H),("FieldNotFoundError / FieldsNotFoundError",H)],["exception type and contents"])

p("C08","Overrides win over version upgrades",
"For a versioned config at any older version with upgrade rules, loading with overrides gives the upgraded config with exactly the overridden fields replaced by the given values. Override names are those of the current version, and no upgrade rule renames, moves, maps, checks or defaults an overridden value.",
["inputs","programs","histories"],"all chains of versions with rewrite rules, all old documents, all overrides of current fields, including fields that rules rename, map, move into absent nested dataclasses or give defaults",
"no test combines overrides with upgrade rules",
[H,V,R],[("_typed_load (order of deserializers)",H),("VersionedDeserializer",V)],["object returned by load/loads with overrides"])

p("C09","Upgrading an old config preserves its meaning",
"For every history of schema changes expressed by rewrite rules, a config file written at any earlier version loads at the current version. Every setting the user wrote keeps its value at its current name (mapped by the declared functions), fields that were absent keep the meaning they had when written (the old default if the default changed), and fields deleted since are ignored. This holds for files with any subset of defaulted fields absent, including absent nested dataclasses.",
["histories","inputs","programs"],"all sequences of renames (also across nesting), deletions, additions, maps, default changes and added defaults over several versions; all old values with all subsets of fields elided",
"the tests have one fixed chain of ten versions with a few fixed files",
[V,R,S],[("Versioned._apply_upgrades",V),("RewriteRule.apply and WEAK_REF",R),("_try_create_defaults(weak_refs)",S)],["object loaded from an old file"])

p("C10","Each rewrite rule changes only what it names",
"Applying one rewrite rule (rename, delete, map, change default, add default, check value, reject values) to any config document has exactly the documented effect on the named field and leaves every other field as it was. Where the field is absent, or a struct on its path is absent or None, deletes, renames, maps and checks do nothing, checks accept a field that is None, and defaults never turn an absent or None nested struct into an explicitly present one. Checks raise for exactly the values that they forbid.",
["inputs","programs"],"all rules over paths of any length and all documents of nested maps with present, absent and None parts",
"tests apply rules only to well-formed files of one chain of classes",
[R],[("RewriteRule subclasses' apply",R),("_remove/_get/_insert",R)],["object loaded by a versioned class with that rule"])

p("C11","Upgrading directly equals upgrading version by version",
"Loading a config of version v at version w gives the same value as loading it at v+1, dumping it, loading that at v+2, and so on up to w. Dumping after each load writes the version of the class and loading at the current version applies no rules.",
["histories","inputs"],"all chains of versions and rewrite rules, all starting versions, all old documents",
"tests only ever load old files at the newest version",
[V,R,S],[("Versioned._apply_upgrades",V),("VersionedSerializer",V)],["objects and texts at every version"])

p("C12","Version stamps: written first, required on load, rules from it on",
"Dumping a versioned config writes its current version as the first entry of its struct, at any nesting depth and with or without elided defaults. Loading applies exactly the rules of versions from the stamped one up to the current one, in order, and never shows the stamp as a field. Loading a file or string of a versioned class without a stamp fails, and loading with no file builds the current defaults without running rules.",
["inputs","programs","histories"],"all versioned classes (also nested and in containers), versions and rule tables with gaps, stamps at every version",
"one class with one stamp per test",
[V,H],[("VersionedSerializer / VersionedDeserializer",V),("load: allow_missing_version",H)],["text of dumps, recorded rule applications, exceptions"])

p("C13","upgrade-config rewrites files to equivalent current ones",
"The upgrade-config command leaves each named file as a current-version config that loads to the same value as before, keeps schedules as written, and running it again changes nothing. With --include-defaults every field is written, otherwise scalar fields equal to their default are left out. With --dry-run no file changes.",
["inputs","histories","programs"],"all old and current config files of versioned classes with rewrite rules and schedules; all flag combinations; several files in one call",
"the command is not tested",
[CH,H],[("_upgrade_config",CH),("_typed_load/_typed_dump",H)],["file contents before and after the command"])

p("C14","An unchanged class passes the check against its own schema dump",
"For every versioned config class over the supported types and defaults, the schema written by dump-schema can be read back, and checking the unchanged class against it reports no change, severity INFO and \"Schema compatible\". Dumping the schema twice gives identical files.",
["programs","inputs"],"all class structures (nested, containers, unions, enums, literals) and all defaults of those types",
"one fixed class is dumped by the tests, without loading it back",
[CH,T],[("materialize_type",T),("_dump_schema / load_schema / schema_from_namedtuple",T),("SchemaChecker._find_changes",CH)],["schema file, SchemaChecker.changes, CLI output"])

p("C15","Changes the checker calls compatible do not break old configs",
"Whenever the schema checker reports severity INFO for a changed config class against the schema dumped from the old class, every config file written by the old class loads under the new class. Its settings keep their values up to exact numeric widening, and settings absent from the file keep the meaning they had.",
["programs","histories","inputs"],"all pairs of old and new classes related by any edits of fields, types, defaults, enums and literals; all old values with all subsets of defaulted fields elided",
"the tests compare fixed reports for fixed pairs and load nothing under the judgement",
[CH,CG,T],[("SchemaChecker._find_changes/_find_renames",CH),("SchemaChange.severity",CG),("is_subtype",T)],["SchemaChecker.severity() against loading of old files"])

p("C16","Every breaking change is reported with its path and severity",
"The schema checker reports, at the right path, every added required field, removed field, changed or removed default, type change, removed or re-valued enum variant, removed literal value and rename. Severity is at least WARN whenever one of these is present, ERROR exactly when some change has no proposed fix and is not compatible, and purely additive changes (fields with defaults, enum variants, literal values, widened types) are INFO.",
["programs","histories"],"all single and combined edits at any nesting depth of all class structures",
"fixed pairs of classes only",
[CH,CG,T],[("SchemaChecker._find_changes, _find_field_renames, _find_enum_variant_renames",CH),("SchemaChange.severity",CG)],["SchemaChecker.changes and severity(), CLI report"])

p("C17","Proposed upgrade rules repair the changes they are proposed for",
"When every reported incompatible change has a proposed upgrade rule, adding the proposed rules for the old version and bumping the version makes the checker report compatibility. Old config files then load under the new class with every surviving setting preserved and absent settings keeping their old meaning, except that values the new type no longer allows are rejected.",
["programs","histories","inputs"],"edits for which rules are proposed (renames, removals, new optional and list fields, changed and removed defaults, re-valued enum variants, removed literal values, str to literal), combined and at any nesting depth of dataclasses; all old values",
"tests check the text of proposals, never that applying them works",
[CH,CG,R],[("SchemaChange.proposed_fix",CG),("RewriteRule.apply_to_schema and apply",R)],["SchemaChecker on the class with the rules, old files loaded by it"])

p("C18","upgrade-schema only overwrites the schema when it is compatible",
"upgrade-schema leaves the schema file byte for byte as it was whenever the class has changes of severity WARN or ERROR that no upgrade rule covers, and otherwise replaces it with the current schema, after which check-schema reports compatibility. check-schema never changes the file.",
["programs","histories"],"all pairs of old schema files and new classes, with and without upgrade rules",
"not tested",
[CH],[("_upgrade_schema / _dump_schema",CH)],["bytes of the schema file, CLI output"])

p("C19","A schedule has the value its notation says at every point",
"For every schedule string with two or more points at increasing positions and any mix of segment kinds (linear, cosine, step), the scheduled value at x is the first point's value before it, the last point's value at and after it, exactly the given value at each point, and the named interpolation between two neighbours (a kind holds until the next one is named, and is linear at first). Between two points it never leaves the range of their values, and an int field takes that value truncated.",
["inputs"],"all schedule strings of the grammar and all positions, including the points themselves and positions before, between and after",
"one schedule is sampled at a few positions",
[SC,H],[("_parse_schedule",SC),("PiecewiseFunction.get_value",SC),("ScheduleDeserializer",H)],["value of the config field for a state at x"])

p("C20","Every scheduled field follows its schedule throughout the run",
"Once the state has been accessed and after every step, each scheduled int or float field, at any depth of nested dataclasses, equals its schedule at the current value of the state field it names, and all other config fields keep their values. Before that the field holds the schedule's value at 0. Checkpoints store the schedule as written, so that restoring continues it.",
["histories","inputs","programs"],"all configs with schedules at any nesting depth, all sequences of state changes, steps, checkpoints and restores",
"one top-level schedule is tested for a few steps",
[H,SC],[("ScheduleDeserializer / ScheduleSerializer",H),("_apply_schedules",H),("StateManager.state/step",H)],["config fields after state access and step, text of config.ron"])

p("C21","Checkpoint and restore are transparent to the program",
"At any point of any run, replacing the running program by a new one restored from the latest checkpoint gives the config and state as they were at that checkpoint, field by field. Continuing both with the same operations gives the same values and the same later checkpoints.",
["histories"],"all interleavings of state mutation, step, explicit checkpoint and restart over configs and states of all supported types, including lazy blob fields",
"tests restart once at one place",
[H,L],[("StateManager.step/checkpoint/_load_state/_load_config",H),("LazySerializer/LazyDeserializer",L)],["config and state of a fresh StateManager"])

p("C22","A crash at any moment leaves the latest complete checkpoint",
"If the process dies at any moment during stepping or checkpointing, a new StateManager on the same directory restores without error. What it restores is the complete state of the last finished step, or of the one being saved, never a mix, a partial checkpoint or a fresh start.",
["crash_points","histories"],"every file system operation of every checkpoint of generated runs as a crash point, with the temporary directory on the same or another file system",
"no test crashes",
[H],[("StateManager.step (new checkpoint before old one is removed)",H),("StateManager.checkpoint / atomic_move",H),("find_latest_checkpoint",H)],["config and state of a fresh StateManager after the crash"])

p("C23","Exactly one latest checkpoint is kept and nothing else is touched",
"After every step with a checkpoint directory, exactly one automatic checkpoint is there, named after the current checkpoint key and complete, and older automatic ones written or restored from by this run are gone. Checkpoints saved explicitly, and any other files or directories, are never changed or removed. Stepping again with the same key keeps the checkpoint.",
["histories","configurations"],"all sequences of steps with increasing or repeated keys, explicit checkpoints, restarts and foreign files in the directory, including several managers in one process",
"one directory listing after one fixed run",
[H],[("StateManager.step",H),("find_latest_checkpoint",H)],["directory tree after every operation"])

p("C24","Restore precedence: checkpoint directory, then path, then initial state",
"With a checkpoint in the checkpoint directory, config and state come from the one with the highest key and init_path is ignored. Otherwise they come from init_path if it is a checkpoint, or the config comes from the file at init_path, or from defaults, and the state from the initial-state function called once with that config. Overrides are applied to the config in every case, and checkpoints given as init_path are never modified.",
["configurations","histories"],"all combinations of checkpoint directory (absent, empty, with other files, with one or more checkpoints), init_path (none, file, checkpoint) and overrides",
"three fixed combinations",
[H],[("StateManager._load_config/_load_state",H),("find_latest_checkpoint / checkpoint_dir setter",H)],["config, state, calls of initial_state"])

p("C25","Serializable blobs restore with identical contents",
"Whatever a Serializable object's serialize method returned (nested dicts, lists, None, bools, ints, floats, str, bytes and numpy arrays of any bool, integer, float, complex, fixed-length string, bytes, datetime or structured type, shape and memory layout) is what its deserialize method receives after a checkpoint is restored: equal values, and arrays with the same dtype, shape and contents. Restored arrays are writable and independent of each other. Data of other types is refused when dumping, except that tuples may be stored as lists.",
["inputs","programs"],"all nested containers of arrays and scalars, including 0-d, empty, Fortran-ordered, strided and big-endian arrays",
"one dict with one small array is tested",
[M,L],[("encode/decode",M),("LazySerializer / Lazy.__getattribute__",L)],["argument of deserialize, arrays in it"])

p("C26","Blobs are loaded only when their field is accessed, and once",
"Loading or restoring a lazy dataclass reads none of its blobs. The first access of a blob field loads that blob alone, with the owner's config, the partially loaded object and the deserialization context, and later accesses return the same object. A missing or damaged blob matters only when its field is accessed, a field assigned before it is read keeps the assigned value, and dumping writes what access would give.",
["histories","configurations"],"all sequences of reads, assignments, dumps and removals of blob files over dataclasses with several blob fields",
"tests access one field once",
[L,H],[("Lazy.__getattribute__/__setattr__",L),("LazyDeserializer",L)],["calls of deserialize, file reads, field identity"])

p("C27","No pickle is ever executed without the explicit opt-in",
"Loading any checkpoint, config or blob, including legacy ones that refer to pickled objects and blobs whose bytes are a pickle, never unpickles anything unless UNSAFE_DESERIALIZE_PICKLE is set. Accessing a legacy pickled field without it raises an error and leaves other fields usable; with it the pickled value is passed to deserialize.",
["inputs","configurations"],"all combinations of legacy markers, blob contents and accesses, with and without the opt-in",
"no test covers legacy pickles",
[L],[("Lazy.__getattribute__ (legacy_pickle)",L)],["execution of a tripwire pickle, exceptions"])

p("C28","Command decorators run the function with exactly the loaded config",
"A function wrapped by the command decorator is called once with the config that loading the given file with the given overrides returns, and its result is returned; the stateful one is called once with a manager for the given config or resume path, checkpoint directory and overrides. On bad names or bad values the process exits with a non-zero status and the function never gets a config (the plain one is not called; the stateful one fails when it first accesses the config). Given both a config and a resume path it exits with a non-zero status without calling the function, and when only help is asked for the function is not called either.",
["inputs","configurations"],"all argument lists of config files, overrides, checkpoint and resume paths and help queries, valid and invalid, in any order",
"the decorators are not tested",
[CM],[("command / stateful_command",CM),("_check_overrides / _print_config_exception",CM)],["argument of the function, exit status, output"])

p("C29","Help shows every field, and what it shows can be overridden",
"Help without query lists every field of the config and of its nested dataclasses (also in optionals and lists) once per place, with its name and type, and (unless it is a dataclass itself) its non-None default and description. A query for a field's exact name shows every field of that name outside of containers with its full path, and each such path is accepted as an override.",
["programs","inputs"],"all class structures with docstrings and defaults, all queries that are field names",
"fixed output for one class",
[HP,T],[("help / print_schema / find_fields",HP),("materialize_type, _find_all_field_docs",T)],["standard output of help"])

p("C30","config_dict mirrors the loaded config as plain data",
"The config dictionary of a StateManager has exactly the fields of the config, recursively as plain dicts, lists, tuples and scalars with enums by value and the version stamp first for versioned classes, and it reflects overrides and the current values of schedules. Changing it never changes the config.",
["inputs","programs"],"all configs over the supported types with overrides and schedules",
"not tested",
[H,S],[("StateManager.config_dict",H),("asdict",S)],["returned dictionary"])

p("C31","A checkpoint that fails leaves the previous one intact",
"If writing a checkpoint fails with an error at any file system operation (disk full, I/O error, permission denied), step or checkpoint raises, the target directory does not appear, and every checkpoint that was complete before is still complete and restorable. After the error is gone, the same manager can step again and saves the current state.",
["fault_sequences","histories"],"every file system operation of every checkpoint of generated runs as a failing operation, with several errors",
"no test injects errors",
[H],[("StateManager.checkpoint / atomic_move",H),("StateManager.step",H)],["exceptions, directory tree, restored state"])

p("C32","Loading, restoring and inspecting write nothing",
"Loading configs, constructing a StateManager, accessing its config, state and lazy fields, check-schema and help change no file: the only effect on the file system is the creation of the checkpoint directory. Loading also changes neither the override list nor the objects passed to it.",
["inputs","histories"],"all configs, checkpoints (also older versions, with lazy blobs) and sequences of read-only operations",
"not tested",
[H,L,S],[("load / StateManager.config/state",H)],["file tree with contents and modification times before and after"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
print(len(P))
