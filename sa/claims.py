NA = {}
BASE = " Trusts rustc's MIR, the models of std in sa/models.py and the abstract interpreter; nothing of the crate is executed."
def claim(i, tech, note):
    TECH[i] = tech
    NOTE[i] = note + BASE
claim("C03", "interprocedural error-flow (typestate) analysis on MIR",
      "For every call site returning Result/Option<Result>, no path with Err reaches a non-error return or a further loop iteration.")
claim("C04", "typestate analysis of buffered writers on MIR + whole-buffer I/O rule",
      "On all paths of the functions that own a buffered writer, success implies a flush after the last use; raw partial reads/writes are excluded.")
RT = "symbolic write/read composition: abstract interpretation of the writer's MIR to a tree of emitted pairs, fed to the abstractly interpreted reader"
RTN = " Decided for symbolic field values, per version; loops over lists by the element-wise loop rule (lists of 0, 1, 2 elements where that rule does not apply). Date, UUID and handle text conversions are taken as inverse pairs here."
claim("C06", RT, "Every entity type x field x version must come back equal or be listed as not stored in that version (sa/spec/entities.json)." + RTN)
claim("C07", RT, "Every object type x field x version must come back equal or be listed as not stored in that version (sa/spec/objects.json)." + RTN)
claim("C08", RT, "Every header variable x version must come back equal or be listed as not stored (sa/spec/header.json)." + RTN)
claim("C17", "effect analysis of the writers' MIR (emitted pair sets per version) against a reviewed table",
      "The set of pairs each writer can emit per version, with marker, code, type and source field, equals the table; the order of pairs under one marker is not compared.")
claim("C09", RT, "Every table x record field x version must come back equal and in order or be listed as not stored in that version (sa/spec/tables.json)." + RTN)
claim("C10", RT, "Section level: framing, blocks and classes with every field, record lists in order; the entities' and objects' own pairs are opaque (C06, C07). Exceptions listed in sa/spec/sections.json." + RTN)
claim("C25", RT, "Composite entities between two arbitrary neighbours, through the crate's section reader; exceptions listed in sa/spec/nested.json (vertices take the 3-D flags of their polyline)." + RTN)
claim("C11", RT, "Every x data item kind, x data entries, extension groups; nested items are decided by the rule for one level applied to opaque nested items (induction on nesting)." + RTN)
claim("C15", "abstract interpretation of the writers' MIR to a loop-structured tree of emitted pairs, checked against the automaton of a DXF file",
      "Every path of the emitted-pair tree, per version, with loops taken any number of times (fixpoint of the automaton's state set over each loop), must be accepted by the automaton.")
claim("C26", RT + ", with and without unknown content inserted",
      "Unknown code 475, unknown names; the verdicts per field must be those of the run without the unknown content. Exceptions: XRECORD, TABLESTYLE and SECTIONSETTINGS for unknown codes inside." + RTN)
claim("C18", "abstract interpretation of the add operations' MIR on a symbolic drawing, with case analysis over the facts the code branches on",
      "Every public add operation x every entity/object type; lists inside the added item have fixed small lengths with symbolic elements; handles do not overflow.")
AI = "abstract interpretation of the operation's MIR on a symbolic drawing, with case analysis over the facts the code branches on"
claim("C19", AI, "Both look-ups on drawings with 0-3 symbolic items in every list; every handle accessor per kind; reference accessors.")
claim("C20", AI, "Every public add operation and the entity/object loading paths x every entity/object type; every combination of names being there already or coinciding.")
claim("C21", AI, "Lists of 0-3 symbolic items, positions 0-4 and the largest.")
claim("C30", AI, "normalize with one symbolic entry per list and every combination of its name coinciding with a required one; new() evaluated abstractly.")
claim("C22", "abstract interpretation of getters and setters to bit-precise summaries (BDDs over the bits of the fields), compared for equality",
      "Every public x()/set_x(v) pair of the crate, arbitrary state and value; bits compared with a reviewed table (sa/spec/flags.json).")
claim("C23", "abstract interpretation of the conversions' MIR on constants and on a symbolic number or name, against a reviewed table",
      "Every enumeration with FromPrimitive; AcadVersion::from/from_safe/Display/order; table sa/spec/enums.json.")
claim("C28", "abstract interpretation of constructors, defaults and predicates to symbolic summaries, compared with reviewed tables and (bit-precisely) with the reference predicates",
      "Every public constructor and every Default (sa/spec/constructors.json); Color/LineWeight predicates for all 2^16 numbers by BDD equality; add_vertex/add_attribute. Default dates are not compared.")

CO = "abstract interpretation of the crate's save and load MIR over bytes and characters (constants, or symbols with a known range, or the i-th byte/digit of a symbolic value)"
claim("C12", "abstract interpretation of the table of codes and effect analysis of the writers' MIR (emitted pairs and their kinds)",
      "ExpectedType::new for every code of the reference and on both sides of every number it compares with; every pair of every writer and version.")
claim("C13", CO, "Every group code with a symbolic value of its kind in text and binary, R12 and R2018, representative codes in every version; extreme numbers, every byte, data lengths up to 300; foreign layouts and malformed lines as listed in sa/rules/c13.py. Rounding of reals to 12 decimals is taken from the format string.")
claim("C14", CO, "Every ASCII character and symbols for all characters of 2, 3, 4 bytes, alone, between others and in pairs and triples of the special ones, and with partial escape sequences; bounded text lengths.")
claim("C29", CO, "Whole-file interpretation for header-only files: every version, format, encoding and the listed file ends.")
claim("C24", CO, "Every supported kind alone, doubled, between others, in blocks; polylines of 0, 1, 3 vertices; three entities with all patterns of equal and different layers and colours; every other entity kind left out; every item in both number modes, scaled and not; every cut of a file with one of each item; every item type that does not exist. The bulge in whole-number mode is not covered.")
claim("C16", "abstract interpretation of the conversion functions' MIR; dates as affine functions of the seconds with a bound on the rounding error; handles and ids digit by digit",
      "Dates: every second of 1900 to 9999 by an interval argument on the composed conversion (rounding of doubles and of 12 decimals bounded exactly). Handles: symbolic digits for every length and spelling; UUIDs: symbolic digits.")
claim("C05", "abstract interpretation of the section readers' MIR on a pair stream that may end or fail before every pair (all cuts in one run), and of load on the bytes of files cut at every byte",
      "Every section in the newest version with one record of each kind, with symbolic values; record readers stand for any outcome they may have at the end of the input. Byte cuts: header-only files in text and binary; C24 cuts DXB files.")
claim("C27", CO, "Headers of 40 to 124 bytes, 0 to 256 colours, data sizes around the line length up to 1 kB, every version and format, foreign line lengths, malformed sections. The image library itself is trusted.")
claim("C31", "effect analysis over the call graph of the MIR; value flow of path arguments; hash-order rule",
      "Every external function named anywhere in the crate is classified; file paths must flow unchanged from a public parameter; clock and random ids only below default constructors and not below a save; hash table iterations must be sorted or order-free.")
