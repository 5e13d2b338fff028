# Per property: (what the technique holds the generated inputs against, note for the manifest).
NOTE = {
"C01": ("the crash oracle (child process, 2 MiB stacks, processor time limit)",
  "all payloads of up to 2 bytes on one schema, random beyond; up to 20,000 nested messages, payloads up to some 100 KB; overflow checks and debug assertions are on; a hang is a case that takes over its limit of processor time"),
"C02": ("a counting allocator",
  "payloads up to 256 KiB; the bound is 16 KiB + 64 per byte + 600 per field + 1500 per message, so a leak below that factor goes unseen"),
"C03": ("the values that an independent encoder wrote",
  "random schemas of up to some 25 types, messages up to 100 levels; edge values of all scalars enumerated. Strings are valid UTF-8. Known finding: packed enums"),
"C04": ("an independent encoder",
  "values of any kind under any field number; edge values of all scalars enumerated"),
"C05": ("the round trip",
  "typed values only; floats compared by bits"),
"C06": ("the round trip, with a reference decoder that says when byte identity is due",
  "all payloads of up to 2 bytes (3 in the thorough tier), random beyond; identity demanded only of payloads with canonical varints and valid UTF-8, a fixpoint of all"),
"C07": ("a metamorphic relation: payloads with and without the unknown fields, and their exact contents",
  "field numbers up to 2^61-1, any level"),
"C08": ("a field-wise model of the prefix",
  "payloads up to 300 bytes are cut at every byte, longer ones at and around field boundaries"),
"C09": ("a metamorphic relation: neighbours stay, contents decode as on their own",
  "any level down to the nesting limit of 100"),
"C10": ("a model of protobuf's casts; packed against unpacked",
  "encodings of 1 to 10 bytes must be accepted, longer ones must not give a value"),
"C11": ("the schema model the text was written from",
  "random schemas of up to some 25 types with all features the library supports; 130, 300 and 66,000 of each kind of thing enumerated"),
"C12": ("a metamorphic relation: two layouts of one schema give equal contexts",
  "layout between any two tokens; form feed and vertical tab are not used as white space; thousands of each kind of declaration enumerated"),
"C13": ("acceptance and the schema model",
  "every keyword with every suffix in every identifier position enumerated; leading underscores, extend, groups and string concatenation are left out (not in the grammar of the time)"),
"C14": ("an independent implementation of the scoping rules",
  "references that resolve under protoc's rule of the first component; where the library is more lenient neither result is demanded; thousands of each kind of declaration enumerated"),
"C15": ("the crash oracle (child process, 2 MiB stacks, processor time limit)",
  "random text, mutated files, deep and long texts enumerated"),
"C16": ("the known place and kind of one injected fault",
  "one fault at a time; duplicate field names and numbers within a message are not demanded to be rejected; thousands of each kind of declaration enumerated"),
"C17": ("the constants the text was written from",
  "all escapes, radix borders and float notations enumerated; strings that are not valid UTF-8 compared as the library documents them (lossy); thousands of each kind of declaration enumerated"),
"C18": ("invariants of the reference graph",
  "parsed contexts and insertion histories of up to 30 steps; references of other contexts are not used; thousands of each kind of declaration enumerated"),
"C19": ("a differential relation: parsed against built by hand",
  "schemas the API can express: one package per file, no services, no enum aliases; up to 66,000 of each kind of thing enumerated"),
"C20": ("a model of the context, and a second context that sees only the successful calls",
  "random histories of up to 30 steps, and enumerated ones of up to 66,000 insertions; a message is never given the name of a service by hand"),
"C21": ("a metamorphic relation: rearranged files give the same views by name",
  "any permutation, split or merge of files of a package; thousands of each kind of declaration enumerated"),
"C22": ("repetition, a reference codec and fresh processes; threads that share contexts",
  "schedules are those the system gives (8 threads), not enumerated; the library has no locks or shared mutable state to interleave"),
"C23": ("the concatenation law",
  "two to four complete payloads"),
"C24": ("a metamorphic relation between two versions of a schema",
  "narrowing changes of type and packed enums (known finding) are left out; thousands of each kind of declaration enumerated"),
"C25": ("a metamorphic relation: one change makes two contexts or values unequal",
  "NaN and signed zeros are left out of the comparison of values; thousands of each kind of declaration enumerated"),
"C26": ("absolute bounds on time and memory, and a scaling relation between texts of two sizes",
  "texts up to 1 MB; a relation of sixteen to one may cost four times as much per byte, so a logarithmic factor passes and a quadratic one does not"),
"C27": ("a metamorphic relation: renaming one to one",
  "names of up to some hundred characters, keywords where the language allows them; thousands of each kind of declaration enumerated"),
"C28": ("scaling relations between payloads of two sizes, depths, shapes and schemas, and a bound on memory",
  "payloads up to 1 MB, contexts of up to some 10,000 declarations; a constant factor below the margins goes unseen"),
"C29": ("a metamorphic relation: together as on their own",
  "two sets of files at a time; thousands of each kind of declaration enumerated"),
"C30": ("a metamorphic relation: nested as on its own",
  "up to 99 messages around the bytes"),
"C31": ("the declarations and rules for what may stand where",
  "all payloads of up to 2 bytes on one schema, random beyond"),
"C32": ("the place where a known fault was put",
  "faults whose place the grammar determines: a character no token begins with, a text that ends early, a number out of range, a map field"),
"C33": ("a model of what was declared, and keys next to it",
  "contexts of up to a dozen types built by hand; thousands of each kind of declaration enumerated"),
}
