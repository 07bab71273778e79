#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the statements are easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if observe: d["anchors"]["observe_at"] = observe
    if state: d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    d["anchors"]["hook_needed"] = None
    P.append(d)

I = "include/osl/"; S = "source/"; X = "source/extensions/"
ALLX = [X + f + ".c" for f in "annotation arrays clay comment coordinates dependence extbody irregular loop null pluto_unroll region scatinfos scatnames symbols textual".split()]

p("P01", "Writing a scop and reading it back gives an equal scop",
  "Any well-formed scop, or list of scops - any numbers of statements, union parts, rows, columns, accesses, parameters and bodies, any documented extension in any place, any integer precision - that is written as an OpenScop file and read back with the matching precision and registry gives the same scops: same language, context, parameter names, statements in the same order, relations with the same types, attributes and coefficients in the same order, and the same extension contents. The read-back result is also equal according to the library's own comparison. Nothing is lost, duplicated, reordered or moved to another statement or scop.",
  ["inputs", "configurations"], "every well-formed scop list x precision {SP,DP,MP} x set of registered extensions",
  "The tests read and re-print 18 sample files with mostly small coefficients; they never build scops with arbitrary dimensions, unions, extension mixes or several precisions, and compare only through the library's own equality.",
  [S+"scop.c", S+"statement.c", S+"relation.c", S+"relation_list.c", S+"generic.c", S+"body.c", S+"strings.c"] + ALLX,
  [("scop printer", "source/scop.c osl_scop_print"), ("scop reader", "source/scop.c osl_scop_pread"), ("statement reader", "source/statement.c osl_statement_pread"), ("extension reader", "source/generic.c osl_generic_sread")],
  ["in-memory scop after write + read, walked field by field"])
p("P02", "Every document of the OpenScop format is read as the format says",
  "A text that follows the documented OpenScop format is read to exactly the scops it denotes, whatever its layout: blanks, blank lines, comment lines and trailing comments between items, any field width, the union count given or omitted when it is 1, relations of a statement in any order, and any number of scops in the file. Every relation gets the type, attributes and rows written in the text, in the place where they were written. Extensions with an unregistered tag are ignored with a warning and do not disturb the rest.",
  ["inputs"], "every (scop, layout) pair of the documented format",
  "Tests only read files in one fixed layout (mostly produced by the library or Clan itself).",
  [S+"scop.c", S+"statement.c", S+"relation.c", S+"relation_list.c", S+"util.c", S+"generic.c", S+"strings.c", S+"body.c"],
  [("tokenising and comment skipping", "source/util.c osl_util_skip_blank_and_comments, osl_util_read_int, osl_util_read_line"), ("relation reader", "source/relation.c osl_relation_pread"), ("dispatch of relations by type", "source/statement.c osl_statement_pread")])
p("P03", "What the library writes is a document of the OpenScop format",
  "The text written for any well-formed scop follows the documented format: an independent parser of that format, written from the documentation, recovers from it exactly the scop that was written, with every non-data line a comment, all counts correct and the generic tags properly paired. Reading the text and writing it again reproduces it byte for byte.",
  ["inputs"], "every well-formed scop x precision",
  "The tests check the writer only through the reader of the same library, so an error made the same way on both sides, or text only this reader accepts, passes.",
  [S+"scop.c", S+"statement.c", S+"relation.c", S+"generic.c", S+"strings.c"],
  [("writer", "source/scop.c osl_scop_print"), ("relation writer", "source/relation.c osl_relation_spprint"), ("generic writer", "source/generic.c osl_generic_sprint")])
p("P04", "String forms of relations, bodies and extensions read back faithfully",
  "For every relation, body, string list and extension type, the text form it is printed to reads back to the same content, for every content the type can hold - including empty, single-element and long ones and every precision. Reading from a string consumes exactly the text of the item, so items laid out one after the other are read in sequence.",
  ["inputs"], "every value of every serialisable type",
  "Only extensions occurring in the sample files are exercised, each with one or two values.",
  [S+"relation.c", S+"body.c", S+"strings.c", S+"generic.c"] + ALLX,
  [("sprint/sread pairs", "source/extensions/*.c"), ("relation string reader", "source/relation.c osl_relation_psread"), ("interfaces", "source/interface.c")])
p("P05", "A clone is complete and independent",
  "Cloning any scop, statement, relation, list, vector, body or extension yields an object with the same content in every field, including every element of lists, that shares no storage with the original. Modifying or freeing either one afterwards never changes the other. Bounded list and constraint clones hold exactly the first requested elements.",
  ["inputs", "histories"], "every object of every type, followed by any change to either copy",
  "The tests clone each sample once and compare with the library's equality; they never modify or free one copy and look at the other.",
  [S+"scop.c", S+"statement.c", S+"relation.c", S+"relation_list.c", S+"generic.c", S+"vector.c", S+"strings.c", S+"body.c"] + ALLX,
  [("clone functions", "source/*.c osl_*_clone"), ("bounded clone", "source/relation.c osl_relation_nclone, source/statement.c osl_statement_nclone, source/generic.c osl_generic_nclone")])
p("P06", "Equality means equal content",
  "Comparing two objects of the same kind - scop, statement, relation, list, vector, body, string list, extension - answers true exactly when their contents agree: it is true for an object and its copy, gives the same answer with the operands exchanged, and is false as soon as any coefficient, count, attribute, name, element or extension differs anywhere. The only differences it ignores are those documented: the order of extensions in a list, the order of elements of set-like extensions, the content of free-text extensions, and fields not owned by the library. An absent object equals only an absent object.",
  ["inputs"], "every pair of objects: an object, a copy, and a copy with any one field changed",
  "Tests only compare objects expected to be equal; a comparison that ignored a field would pass all of them.",
  [S+"scop.c", S+"statement.c", S+"relation.c", S+"relation_list.c", S+"generic.c", S+"vector.c", S+"strings.c", S+"body.c", S+"interface.c"] + ALLX,
  [("equality functions", "source/*.c osl_*_equal")])
p("P07", "Every object is released exactly once, and no access leaves its memory",
  "In any valid sequence of library calls - creating, reading, copying, combining, editing, printing, converting and finally freeing - no call reads or writes outside live memory or frees anything twice. After the objects the caller owns have been freed, nothing the library allocated stays allocated.",
  ["histories"], "every sequence of API calls respecting ownership, over all object kinds and sizes",
  "The test programs exit without checking memory, on small objects and one fixed sequence of calls.",
  [S+"scop.c", S+"statement.c", S+"relation.c", S+"relation_list.c", S+"generic.c", S+"vector.c", S+"strings.c", S+"body.c", S+"names.c", S+"interface.c", S+"util.c", S+"int.c"] + ALLX,
  [("free functions", "source/*.c osl_*_free"), ("string growth", "source/util.c osl_util_safe_strcat")],
  ["AddressSanitizer and an allocation ledger around every case"])
p("P08", "Integer operations compute the exact mathematical result",
  "At every supported precision, every integer operation - arithmetic, exact and floor division, remainder, gcd, lcm, sign, absolute value, comparison, divisibility, sizes, assignment, swap and conversion - gives the exact mathematical result whenever that result fits, and the same result at all precisions it fits in. This includes calls where the result is stored over an operand. Operands not written to are unchanged.",
  ["inputs"], "all operand values (with emphasis on 0, +-1, powers of two and the limits of the type) x all aliasings x all precisions",
  "tests/osl_int.c checks a few fixed operand pairs.",
  [S+"int.c"], [("integer layer", "source/int.c"),])
p("P09", "Integer overflow is reported, never silently wrapped",
  "When the mathematical result of an integer addition, subtraction, increment, decrement, multiplication, negation, absolute value, or conversion to a fixed-size precision does not fit, the operation stops with an overflow error instead of storing a wrapped value. It never reports an overflow when the result fits.",
  ["inputs"], "all operand pairs around the limits of the fixed-size precisions",
  "No test exercises an overflow.",
  [S+"int.c"], [("overflow tests", "source/int.c osl_int_*"), ("error exit", "include/osl/macros.h OSL_overflow")])
p("P10", "Changing or choosing a precision preserves values and text",
  "Converting an integer, a relation (in place or into a copy) or the relations of a whole scop between precisions preserves every value that the target can represent. Reading the same text at different precisions (chosen explicitly or by the environment variable) gives the same values, and printed integers read back to themselves, consuming exactly their own text.",
  ["inputs", "configurations"], "all values representable in both precisions x all precision pairs x the environment variable's settings",
  "osl_relation_set_precision samples one relation; the variable is never set in a test.",
  [S+"int.c", S+"relation.c", S+"util.c", S+"statement.c", S+"scop.c"],
  [("set_precision", "source/int.c osl_int_set_precision, source/relation.c osl_relation_set_precision(_copy)"), ("precision choice", "source/util.c osl_util_get_precision")])
p("P11", "Vectors behave as integer vectors",
  "Every sequence of vector operations - creation, tagging for equality/inequality, addition and subtraction of vectors, addition of a scalar, multiplication by a scalar, comparisons and the test for being a scalar - gives vectors whose every component is the exact value given by ordinary vector algebra. The operands, their sizes and precisions never change, an operation on one component touches only that one, and operands that do not go together are refused with an error.",
  ["histories", "inputs"], "all operation sequences over vectors of all sizes and precisions",
  "No test calls the vector API.",
  [S+"vector.c"], [("vector operations", "source/vector.c")])
p("P12", "Editing a constraint matrix changes exactly what was asked",
  "Inserting, removing, replacing, exchanging or blanking rows, adding or subtracting vectors, inserting or removing columns, inserting or concatenating vectors or constraints and cloning row ranges give precisely the matrix an ordinary matrix model predicts, at any position. Every other coefficient, the attributes and the other union parts keep their values and the declared sizes always match the stored matrix. A row, column, size or precision that does not fit the relation is refused with an error.",
  ["histories"], "all sequences of edit operations over relations of all shapes, positions and precisions",
  "No test edits relations.",
  [S+"relation.c"], [("row edits", "source/relation.c osl_relation_insert_constraints, osl_relation_remove_row, osl_relation_insert_blank_row"), ("column edits", "source/relation.c osl_relation_insert_columns, osl_relation_remove_column, osl_relation_add_vector")],
  None, [("m, nb_rows, nb_columns", "coefficient rows and their sizes", "include/osl/relation.h")])
p("P13", "Unions and lists behave as sequences",
  "Adding, counting, cloning prefixes, concatenating, filtering by access type, pushing, popping, duplicating, dropping and removing parts, on unions and on lists of relations, statements, scops and extensions, give exactly the sequence a plain list model predicts, with elements in order and their content intact. Operations documented to copy leave their arguments unchanged.",
  ["histories"], "all operation sequences over lists of any length, including empty ones",
  "Tests never use the list operations apart from reading sample files.",
  [S+"relation.c", S+"relation_list.c", S+"statement.c", S+"scop.c", S+"generic.c"],
  [("relation lists", "source/relation_list.c"), ("unions", "source/relation.c osl_relation_add, osl_relation_concat_unions, osl_relation_remove_part")])
p("P14", "Removing unions enumerates every combination exactly once",
  "Removing the unions of a statement or scop yields, for each original statement in order, one statement per combination of one domain part and one scattering part, each with single-part domain and scattering equal to the parts chosen and with the accesses and extensions of the original. No statement or combination is lost, duplicated or reordered across statements; the original scop is unchanged, and everything else in the scop is preserved.",
  ["inputs"], "every scop whose statements have any numbers of domain and scattering parts",
  "Samples with unions have at most one such statement and the result is not compared with anything.",
  [S+"statement.c", S+"scop.c"], [("union removal", "source/statement.c osl_statement_remove_unions, source/scop.c osl_scop_remove_unions")])
p("P15", "Scattering normalisation keeps the schedule and makes depths uniform",
  "After normalising the scatterings of a scop all its scattering relations have the same number of output dimensions, the largest one found before. Each original row keeps its coefficients on its original dimensions and each added dimension is fixed to zero by exactly one new equality; accesses, domains and everything else stay unchanged, and normalising again changes nothing.",
  ["inputs"], "every scop with scatterings of arbitrary depths, rows, local dimensions, unions and precisions",
  "No test checks it on scatterings of different depths.",
  [S+"scop.c", S+"relation.c"], [("normalisation", "source/scop.c osl_scop_normalize_scattering, source/relation.c osl_relation_extend_output")])
p("P16", "The integrity check accepts exactly the consistent inputs",
  "The integrity check accepts every relation, statement and scop that is consistent, and rejects one in which any stated rule is broken: sizes that do not match the matrix attributes, negative or missing attributes, first column entries other than 0 and 1, attribute values not allowed for the kind of relation, numbers of iterators or parameters that disagree between context, domain, scattering, accesses, or accesses without a proper array identifier (a positive int). It never modifies what it checks.",
  ["inputs"], "every consistent scop and every single break of a consistency rule anywhere in it",
  "Tests check only that samples are read; a check that accepted everything would pass.",
  [S+"relation.c", S+"statement.c", S+"scop.c", S+"relation_list.c"], [("integrity checks", "source/relation.c osl_relation_integrity_check, source/statement.c osl_statement_integrity_check, source/scop.c osl_scop_integrity_check")])
p("P17", "Attributes derived from a scop are the true ones",
  "The numbers of parameters, iterators, scattering dimensions, local dimensions and array identifiers computed for relations, unions, lists, statements and scops are the maxima (or common values) over all their parts as defined by their contents. The array identifier, the access type tests, the number of components, and element counts returned always correspond to the actual content, wherever the deciding part is in the list.",
  ["inputs"], "every scop, statement and relation", "Tests never compare these numbers with anything.",
  [S+"relation.c", S+"relation_list.c", S+"statement.c", S+"scop.c", S+"names.c"],
  [("attribute computation", "source/relation.c osl_relation_get_attributes, osl_relation_get_array_id, osl_relation_nb_components"), ("scop attributes", "source/scop.c osl_scop_get_attributes")])
p("P18", "Human-readable comments and expressions denote the constraints they annotate",
  "The readable expressions, constraint comments and column headings produced for relations and statements denote exactly the row or column they stand next to: evaluating the printed formula at any integer point gives the same value and relation (equal to or at least zero) as evaluating the row. The names used are those supplied, or the default names when none are.",
  ["inputs"], "every relation of every type x name sets x evaluation points",
  "No test reads comments back.", [S+"relation.c", S+"names.c", S+"strings.c", S+"statement.c"],
  [("expressions", "source/relation.c osl_relation_subexpression, osl_relation_expression, osl_relation_sprint_comment"), ("names", "source/names.c")])
p("P19", "Identifier substitution in body text is exact and reversible",
  "Replacing identifiers in statement text by marks (@0@, @1@, ..., between parentheses where an expression would otherwise regroup) replaces exactly the whole-word occurrences of each given identifier and nothing else, so that putting names in place of the marks gives back, up to those parentheses, the original text when the same names are used and the consistently renamed text when others are. A text without any such identifier is unchanged.",
  ["inputs"], "all texts and identifier lists, including identifiers that are prefixes or suffixes of one another",
  "Only the identity substitution on sample bodies is exercised, through printing.",
  [S+"util.c", S+"body.c", S+"strings.c"], [("substitution", "source/util.c osl_util_identifier_substitution, osl_util_identifier_is_here"), ("body reading", "source/body.c osl_body_sread")])
p("P20", "Extension lists and registries are faithful maps from tag to content",
  "Whatever the sequence of additions, removals, lookups, shelving and copies, a list of extensions and a registry of interfaces answer lookups exactly as a map from tag to content would: what was added is found, what was removed is not, other entries are untouched, and counts agree. Reading a text with several extensions retrieves every registered one with its own content, whatever their order, and skips unregistered ones; a second entry with the same tag is refused with an error.",
  ["histories", "inputs"], "all operation sequences over extension lists and registries",
  "Tests exercise a single registry and the lists in the sample files.",
  [S+"generic.c", S+"interface.c"], [("extension list", "source/generic.c osl_generic_add, osl_generic_remove, osl_generic_lookup, osl_generic_shelve"), ("registry", "source/interface.c")])
p("P21", "String lists and name sets are faithful sequences of names",
  "String lists keep their elements in order and unchanged under creation, addition, concatenation, copying, lookup, printing and reading, for any number and length of elements; converted to a C++ list they are the same. Generated name sets contain exactly the requested number of distinct names, with numbering as documented, and the names a scop supplies (parameter names, array table, body iterators) are used in their places when it is printed.",
  ["inputs", "histories"], "all lists of words and all size combinations of name sets", "Tests use one-digit numbers of short names.",
  [S+"strings.c", S+"names.c", S+"scop.c"], [("strings", "source/strings.c, include/osl/strings.h"), ("names", "source/names.c osl_names_generate, source/scop.c osl_scop_names")])
p("P22", "Looking at an object never changes it",
  "Printing in any form, dumping, comparing, counting, checking, looking up and cloning leave every argument exactly as it was, and give the same result when repeated. Objects passed as input to operations that return new objects are equally unaffected.",
  ["histories"], "all read-only calls on all objects, in any order and number", "Tests look at an object once and never compare it before and after.",
  [S+"scop.c", S+"statement.c", S+"relation.c", S+"generic.c"], [("printers and dumpers", "source/*.c"), ("names for printing", "source/scop.c osl_scop_pprint")])
p("P23", "SCoPLib export denotes the same program",
  "For every scop accepted as SCoPLib-compatible, the exported text contains, in SCoPLib's own format, the same context, parameter names, number of statements, domains, schedules and accesses - one row per access dimension, with array identifiers consistent across the whole export - and bodies with the same iterators and expression. Scops that are not representable are reported as incompatible, and exporting never alters the scop.",
  ["inputs"], "every SCoPLib-compatible scop, plus scops broken in one compatibility rule",
  "The SCoPLib printer has no test at all.", [S+"scop.c", S+"statement.c", S+"relation.c", S+"relation_list.c", S+"body.c", S+"generic.c"],
  [("export", "source/scop.c osl_scop_print_scoplib"), ("compatibility check", "source/scop.c osl_scop_check_compatible_scoplib")])
p("P24", "Operations on extension contents do what their model says",
  "Adding to, counting, looking up, removing from and converting structured extensions - array tables, loop annotations, dependence lists, extended bodies, symbol tables, regions, irregular control predicates, unroll requests, annotations, scattering names and information - give the result a plain model of the data predicts, keep all previously stored elements and their order, and return the documented value for absent elements.",
  ["histories", "inputs"], "all operation sequences on each extension", "Only the unroll extension has a test, with one fixed case.",
  ALLX, [("helpers", "source/extensions/arrays.c osl_arrays_add, loop.c osl_loop_add, extbody.c osl_extbody_add, irregular.c osl_irregular_add_*, dependence.c, symbols.c")])
p("P25", "Malformed input is refused or read safely, never mishandled",
  "Reading any file or string - truncated, with lines removed, duplicated or altered, wrong counts, over-long words and lines, or arbitrary bytes - ends either with a scop that satisfies the structural invariants of the library and can be printed, copied and freed, or with an error exit. It never crashes, hangs, or touches memory it does not own. A text that certainly breaks the format - an unknown relation type, a header or row with missing or unreadable numbers, numbers the precision cannot hold, negative sizes or counts, counts that disagree with what follows, relations that a statement cannot have, spoilt or missing tags - is always refused.",
  ["inputs"], "all texts, by mutation of valid documents and by structure-aware generation", "Tests read well-formed files only.",
  [S+"scop.c", S+"statement.c", S+"relation.c", S+"util.c", S+"generic.c", S+"strings.c", S+"body.c"] + ALLX,
  [("token readers", "source/util.c"), ("readers", "source/relation.c osl_relation_pread and source/*.c")])
p("P26", "The token readers return exactly the next item and stop right after it",
  "Reading an int, a word, a line, a tag, a list of words, or the text up to a flag or tag, from a file or from a string, skips blanks and comments only where the format allows them, returns exactly the next item of the input whatever its length and position, and leaves the input right after it (after its line in a file), so that reading item after item visits the text once and in order. What is not such an item, or an int that does not fit, is refused; a missing flag or tag is reported and nothing is invented. Extracting the content of a tag returns the exact text between the first opening tag and its end tag, and appending to a growing string keeps every character.",
  ["inputs", "histories"], "all texts and all sequences of readers on them", "Tests go through the readers only with short well-formed files.",
  [S+"util.c", S+"strings.c", I+"util.h"],
  [("token readers", "source/util.c osl_util_read_int, _string, _line, _tag, _uptoflag"), ("lists of words", "source/strings.c osl_strings_sread")])
p("P27", "A dump shows the whole object, whatever its nesting",
  "The dump of an object shows every value, name, size and part it holds, element after element, and tells an absent part from a present one; objects whose values differ have different dumps (except for long textual options, shown shortened), and a clone has the dump of its original. The dump of a whole contains the dumps of its parts; a depth given to a dump moves the margin and changes nothing else, and depth 0 is the plain dump. A dump of dependences shows just the statements they point to, and leaves them in place.",
  ["inputs"], "all objects of all types, at all depths", "No test looks at a dump.",
  [S+"scop.c", S+"statement.c", S+"relation.c", S+"relation_list.c", S+"generic.c", S+"interface.c", S+"vector.c", S+"names.c", S+"strings.c", S+"body.c"] + ALLX,
  [("dumps", "source/*.c and source/extensions/*.c osl_*_dump, osl_*_idump")])
p("P28", "A new object is empty, complete and ready to use",
  "Creating any object - relation, vector, integer, list, statement, scop, names, strings, extension, interface, or any extension content - returns one whose every field has its documented default: absent parts, zero counts and coefficients, undefined attributes, absent user fields, the precision asked for or that of the environment; whatever the memory held before and whatever was created before. It shares nothing with other objects and can be compared, copied, filled and freed at once. What reading, copying, combining or transforming returns has no field left unset either.",
  ["histories", "inputs"], "all sequences of creations and releases, sizes and precisions", "Tests fill every field before looking at it and run on fresh (zeroed) memory.",
  [S+"relation.c", S+"vector.c", S+"int.c", S+"scop.c", S+"statement.c", S+"generic.c", S+"interface.c", S+"names.c", S+"strings.c", S+"body.c"] + ALLX,
  [("constructors", "source/*.c and source/extensions/*.c osl_*_malloc, osl_relation_pmalloc, osl_vector_pmalloc")])
p("P29", "An absent (NULL) object is accepted and neutral",
  "Wherever the headers do not forbid it, a NULL object may stand for an absent one. Editing, adding or inserting nothing changes nothing, and nothing is changed when there is nothing to edit; nothing combined with an object is a full, independent copy of that object (the object itself when it is added); the copy, filter, union or transformation of nothing is nothing; nothing is equal to nothing and different from any object, in both orders; it has no elements, attributes or URI, passes the integrity check, prints no item and dumps as absent. An operation that cannot do without an operand is refused with an error. NULL names stand for the usual generated names.",
  ["inputs", "histories"], "all objects, operations and positions of absent operands", "Tests never pass an absent operand next to a random present one.",
  [S+"relation.c", S+"relation_list.c", S+"vector.c", S+"scop.c", S+"statement.c", S+"generic.c", S+"interface.c", S+"names.c", S+"strings.c", S+"body.c"] + ALLX,
  [("nullable", "include/osl/*.h parameters without OSL_NONNULL; source/*.c and source/extensions/*.c NULL branches")])
p("P30", "Calls do not influence one another: only their arguments decide",
  "The result of a call and what it does to its arguments depend on these arguments alone (and on OSL_PRECISION for the calls that consult it), never on what was called before on other objects: a task (a sequence of reads, prints, edits, copies, comparisons, conversions on objects of its own) sees the same texts, values and refusals in a fresh process, after any number of other calls, when its calls alternate with those of other tasks (with other precisions too), and when it runs in a thread at the same time as tasks in other threads. There is no hidden shared state, and calls that only look at their arguments do not write into them even for a moment, so that several threads may look at the same objects at the same time.",
  ["schedules", "histories", "inputs"], "all interleavings and thread schedules of tasks on separate objects, and of looks on shared ones", "Tests run one sequence of calls in one thread.",
  [S+n+".c" for n in "relation relation_list vector scop statement generic interface names strings body int util".split()] + ALLX,
  [("reentrancy", "source/*.c, source/extensions/*.c: no static variables; const arguments (osl_relation_subexpression)")])
p("P31", "Without GMP the library does the same in the precisions it has",
  "Built without GMP (OSL_GMP_IS_HERE undefined), the library supports exactly the 32/64 bit precisions: arithmetic, relations, scops, extensions, their reading, printing, dumping, editing, comparison and SCoPLib export give in them the same values, texts and refusals as the build with GMP. Multiple precision is then not supported: everything that needs such numbers is refused, in any build everything that needs numbers of an unknown precision is, and when nothing else is asked for (or multiple precision is, by OSL_PRECISION=0) the highest precision that there is is used; unknown values of OSL_PRECISION are ignored.",
  ["configurations", "inputs"], "both configurations of the build, all operations and operands", "Tests run one build.",
  [S+"int.c", S+"util.c", S+"relation.c", S+"vector.c", S+"scop.c", S+"statement.c", "include/osl/int.h"],
  [("configurations", "source/int.c, source/util.c, include/osl/int.h: OSL_GMP_IS_HERE")])
p("P32", "A call has no effect outside its arguments and its result",
  "Nothing that a program can observe outside of the arguments and the result of a call changes: a call writes nothing on the standard output and reads nothing from the standard input, changes neither the environment, the working directory, the locale, the signal handlers nor the rounding mode, and leaves no file open and closes none. What it says on the standard error are complete lines; a call that ends the program does so with status 1 after an error message, a call that returns has written no error message. A stream given to be printed in keeps what is in it and remains usable, texts printed one after the other follow each other; reading gives the same, and stops at the same place, from any stream with the same characters (in the middle of a file, a pipe, any buffering); a text given to be read is not written into.",
  ["inputs", "histories"], "all calls, on all objects, texts and streams", "Tests compare one printed file for a few documents, and look at nothing else.",
  [S+n+".c" for n in "relation relation_list vector scop statement generic interface names strings body int util".split()] + ALLX,
  [("containment", "source/*.c, source/extensions/*.c; include/osl/macros.h OSL_error, OSL_warning, OSL_info")])
p("P33", "A failing allocation or stream ends in an error, not in a wrong result",
  "When memory runs out, at any allocation of any call, the program ends with status 1 after an error message: it never crashes, never hangs, and never goes on with another result than it would have had. When a stream cannot take all that is printed in it, the call returns, what was written is the beginning of the text, the stream shows the error and the printed object is unchanged. When a stream fails while it is read, the outcome is a refusal, or what the text read so far gives; reading always ends.",
  ["fault_sequences", "inputs"], "every allocation of every call, every place where a stream may fail", "Tests run with enough memory, on files without errors.",
  [S+n+".c" for n in "relation relation_list vector scop statement generic interface names strings body int util".split()] + ALLX,
  [("faults", "include/osl/macros.h OSL_malloc, OSL_realloc, OSL_strdup; source/util.c osl_util_safe_strcat, osl_util_read_uptoflag")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
for d in P:
    assert len(d["title"]) <= 80, d["id"]
print(len(P), "properties")
