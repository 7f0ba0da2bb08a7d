prop("A01", "Shared heap blocks are freed exactly when their last reference goes away",
     "Taking another handle to a reference-counted block adds exactly one reference, giving one up removes exactly one, and marking a block as shared between threads keeps the number. The payload is destroyed by its own destructor and the memory freed exactly once, when and only when the last handle is dropped, whichever threads do so; null and static blocks are never counted or freed. On blocks shared between threads counting is atomic, every decrement releases, and the one that frees has acquired.",
     ["histories", "schedules"], "every sequence of clone, drop and share operations, on every thread interleaving and every value of the count",
     "Tests make at most two handles on one thread; a lost, duplicated or unordered count change shows only as a leak, a double free or a race under particular interleavings.",
     ["lib/ffi/src/arc.rs", "lib/ffi/src/arc/arc_block.rs", "lib/ffi/src/arc/arc_buffer.rs"],
     [("count transitions of clone, drop and synchronize", "lib/ffi/src/arc/arc_block.rs"), ("handles", "lib/ffi/src/arc.rs, lib/ffi/src/arc/arc_buffer.rs")],
     "Exhaustive over the classes of the count (null, static, thread-local unique and shared, synchronized under arbitrary interference); assumes counts do not overflow and the payload's offset is that of the block header.")
prop("A02", "Payloads are mutable in place only through their sole handle",
     "Mutable access to the payload of a reference-counted block is given exactly when the handle is the only one, never for static blocks, and asking for it does not change the count. For a block shared between threads it is given only after everything other owners did has been ordered before it.",
     ["histories", "schedules"], "every value of the count, with any interference from other threads",
     "Tests ask for mutable access in three fixed situations on one thread; missing ordering or an off-by-one in another class of the count goes unnoticed.",
     ["lib/ffi/src/arc.rs", "lib/ffi/src/arc/arc_block.rs"], [("uniqueness test", "lib/ffi/src/arc/arc_block.rs")],
     "Exhaustive over the classes of the count; trusts the Rust type checker for everything that goes through safe references.")
prop("A03", "Dynamically typed values keep their payload and its type",
     "A value boxed as a dynamically typed one can be told apart by exactly its own type, and is given back unchanged when asked for as that type; asking for any other type is refused and loses nothing. Cloning it makes an independent owner of the same payload, and every boxed payload is released exactly once, with its own type's destructor.",
     ["inputs", "histories"], "every payload type of the runtime and the packages, and every sequence of boxing, cloning, inspecting, unboxing and dropping",
     "Tests box a few values of a few types; a wrong function in one type's table, or a double or forgotten release on one conversion, corrupts memory only later.",
     ["lib/ffi/src/any.rs", "lib/ffi/src/type_information.rs", "lib/ffi-macro/src/any.rs", "lib/ffi/src/extra/result.rs"],
     [("ownership of boxed payloads", "lib/ffi/src/any.rs"), ("per-type tables and conversions", "lib/ffi-macro/src/any.rs, lib/ffi/src/type_information.rs"), ("results", "lib/ffi/src/extra/result.rs")],
     "Decides every conversion of the runtime, and the macro's output on a fixture of payload types; packages are checked for payload size only.")
prop("A04", "Continuation stacks hand back what was pushed, in reverse order, intact",
     "Values of any types pushed on a continuation stack are popped in reverse order and unchanged, however many are pushed and whatever capacity the stack was created with. The stack never writes or reads outside its memory, keeps its contents when it grows, and frees its memory exactly once.",
     ["inputs", "histories"], "every initial capacity and every sequence of pushes and pops of types with alignment of up to eight bytes",
     "Tests push at most two small values; an entry of odd size, a growth at an exact boundary or a large entry corrupts neighbouring values without any visible failure.",
     ["lib/ffi/src/cps/stack.rs"], [("growth, entry width and addresses", "lib/ffi/src/cps/stack.rs")],
     "Symbolic in sizes and capacities for addresses and bounds; entry widths are evaluated for all layouts up to 64 bytes with alignment up to 8.")
prop("A05", "Suspended computations resume exactly where they stopped",
     "A suspended computation hands back its own step function, continuation and future or value, with the types they were stored with, exactly once and in order; operations out of that order fail without touching stored values. A bounced continuation always wakes its task, a task's context is visible only while it is being polled, and a result is delivered exactly once.",
     ["histories", "schedules"], "every history of suspending, bouncing, resuming and restoring",
     "Tests exercise a handful of orders; an order accepted by mistake, a missing wake-up or a stale context shows as a hang or as memory corruption under particular schedules.",
     ["lib/ffi/src/cps/async_stack.rs", "lib/ffi/src/cps/async_stack_action.rs"], [("suspension protocol", "lib/ffi/src/cps/async_stack.rs"), ("order of operations", "lib/ffi/src/cps/async_stack_action.rs")],
     "Closes the protocol's finite abstract state space, so histories of any length are covered up to the first refused operation.")
prop("A06", "Awaiting a computation of the language from Rust gives its result, exactly",
     "Awaiting a closure or function of the language starts it once with the given arguments in order, and completes with precisely the value it resolves to, however often it is suspended in between. Each poll takes exactly one step, the one the computation stored last, inside the context of that poll.",
     ["histories", "schedules"], "every number of suspensions, every argument list and every result",
     "Tests await functions which suspend at most a few times under one executor; a stale step, a lost argument or a step outside of the current context shows only under other schedules.",
     ["lib/ffi/src/future/from_closure.rs", "lib/ffi/src/future/from_function.rs", "lib/ffi/src/future/call.rs", "lib/ffi/src/future/call_function.rs", "lib/ffi/src/cps/import.rs", "lib/ffi/src/future/stream.rs"],
     [("futures over suspendable computations", "lib/ffi/src/future/from_closure.rs, lib/ffi/src/future/from_function.rs"), ("macros", "lib/ffi/src/future/call.rs, lib/ffi/src/future/call_function.rs, lib/ffi/src/cps/import.rs")],
     "Histories of up to three polls, by which time the state repeats; macros are analysed as expanded in a fixture crate.")
prop("A07", "Rust functions exported to the language run once and hand over their result once",
     "A Rust function exported to the language runs its body exactly once with the arguments in their order, and its result reaches the caller converted to the type the caller expects. When it is asynchronous its future is polled once per step, keeps the caller's continuation while pending, wakes the task when done, and calls the continuation exactly once, leaving nothing on the caller's stack.",
     ["histories", "schedules", "inputs"], "every signature shape the macro accepts, and every number of suspensions",
     "Tests call a few generated functions which are ready at once; a future polled twice after completion or a continuation lost on the pending path appears only under real I/O.",
     ["lib/ffi-macro/src/bindgen.rs", "lib/ffi/src/future/to_closure.rs"], [("generated wrappers", "lib/ffi-macro/src/bindgen.rs"), ("futures as closures", "lib/ffi/src/future/to_closure.rs")],
     "The macro is judged by its output on a fixture of signatures: synchronous and asynchronous; no, one and three results kinds; mutable and same-typed arguments.")
prop("A08", "Strings, numbers, booleans, lists and errors cross from Rust unchanged",
     "A string of the language made from Rust text or bytes has exactly their bytes, of every length, and reads back as them; equality and hashing of strings look at the bytes only. Numbers and booleans convert to themselves and back; a list made from a Rust iterator holds exactly its elements in their order; an error keeps its cause or message.",
     ["inputs"], "every byte string of every length, every number, every iterator",
     "Tests build a few short values and do not look at their contents; a wrong length for particular sizes, a trimmed byte or a reversed list passes them.",
     ["lib/ffi/src/string.rs", "lib/ffi/src/arc/arc_buffer.rs", "lib/ffi/src/list.rs", "lib/ffi/src/error.rs", "lib/ffi/src/number.rs", "lib/ffi/src/boolean.rs"],
     [("contents of byte strings", "lib/ffi/src/arc/arc_buffer.rs, lib/ffi/src/string.rs"), ("lists, errors and scalars", "lib/ffi/src/list.rs, lib/ffi/src/error.rs, lib/ffi/src/number.rs, lib/ffi/src/boolean.rs")],
     "Symbolic in contents and lengths of strings; lists are decided for up to four elements, which exercises the loop's every state.")
prop("A09", "Values bound to one thread cannot reach another through the runtime",
     "Safe Rust code cannot move a value which is bound to one thread to another by wrapping it in the runtime's shared blocks, closures, computations or dynamically typed values, while the language's own values cross threads freely. A type becomes a dynamically typed value only if it can be cloned, sent and shared.",
     ["inputs", "schedules"], "every payload type",
     "Tests cannot contain programs which do not compile, and a data race that a missing restriction allows shows only under particular schedules.",
     ["lib/ffi/src/arc.rs", "lib/ffi/src/closure.rs", "lib/ffi/src/cps/async_stack.rs", "lib/ffi-macro/src/any.rs"],
     [("Send and Sync", "lib/ffi/src/arc.rs, lib/ffi/src/cps/async_stack.rs"), ("payload types", "lib/ffi-macro/src/any.rs")],
     "Witness programs for the classes of payloads: not Send, Send but not Sync, Sync but not Send; the decision is the type checker's.")
prop("A10", "Shared types are laid out as compiled programs expect",
     "Every type that compiled programs and Rust share has a fixed memory layout, transitively, and holds exactly the words that compiled programs expect at the offsets they expect, including the contents of the blocks behind handles. Functions stored in shared tables use the platform's C calling convention.",
     ["inputs"], "every shared type, and every field of it",
     "Rust tests are compiled with the same layout on both sides, so they cannot see that it changed; the mismatch is with code generated by another compiler.",
     ["lib/ffi/src/any.rs", "lib/ffi/src/closure.rs", "lib/ffi/src/type_information.rs", "lib/ffi/src/cps/stack.rs", "lib/ffi/src/arc/arc_buffer.rs", "lib/mir-fmm/src/type_.rs", "lib/mir-fmm/src/closure.rs"],
     [("shared types", "lib/ffi/src"), ("what compiled programs expect", "lib/mir-fmm/src/type_.rs, lib/mir-fmm/src/closure.rs")],
     "What compiled programs expect is a table written down from the code generator, which cannot be built offline.")
prop("A11", "Closures made in Rust own their payload and release it exactly once",
     "A closure made in Rust keeps its entry function and payload in one block, with a table that outlives it. Its payload is destroyed exactly once, by its own destructor and through that table, when the block is released; forgetting its type or marking it as shared neither copies nor destroys anything.",
     ["histories"], "every payload type, and every history of making, sharing, retyping and dropping closures",
     "Tests drop two closures; a destructor in the wrong slot, a dangling table or a second release is silent until memory is reused.",
     ["lib/ffi/src/closure.rs"], [("closure blocks and their tables", "lib/ffi/src/closure.rs")],
     "Counting and freeing of the block itself is another property.")
prop("B01", "Formatting a program never changes what it means",
     "Formatting any program which the compiler accepts gives text which the compiler accepts again, and which is the same program: only the positions of its parts, the order of imports and of the names in them, and redundant parentheses may differ. Formatting always finishes.",
     ["inputs"], "every program: any nesting of constructs, any line breaks and comments in it",
     "Tests format chosen programs; parentheses dropped, words run together or lines joined in one nesting or at one line break change the meaning of other programs silently.",
     ["lib/format/src/lib.rs", "lib/parse/src/parser.rs"],
     [("layout of constructs", "lib/format/src/lib.rs"), ("grammar", "lib/parse/src/parser.rs, lib/parse/src/operations.rs")],
     "Families: each construct of the grammar with every construct in every place of it, line breaks and comments at every place between its words; places deeper than two constructs are covered by holes that stand for any text of a kind.")
prop("B02", "Formatting a program keeps every comment in it, once",
     "Every comment of a program, wherever it stands between two words of the program, is in the formatted program exactly once, as a comment, and with its text. A comment never swallows a part of the program, and no part of the program becomes a comment.",
     ["inputs"], "every program and every place between two of its words",
     "Tests place comments at chosen spots; a comment at another spot is lost or doubled, or makes code part of it, only there.",
     ["lib/format/src/lib.rs", "lib/format/src/context.rs", "lib/parse/src/parser.rs"],
     [("comments in front of, behind and within constructs", "lib/format/src/lib.rs"), ("comments' lines", "lib/format/src/context.rs")],
     "Families: each construct of the grammar with a comment at every place between its words, alone and together with comments at all other places.")
prop("B03", "Formatting formatted programs changes nothing",
     "Formatting the formatted text of a program without comments gives that very text again, so that the check for formatted sources accepts what the formatter writes.",
     ["inputs"], "every program without comments, with line breaks anywhere",
     "Tests format chosen programs once; a line break or blank line which a second run moves shows only for other programs.",
     ["lib/format/src/lib.rs"], [("layout of constructs", "lib/format/src/lib.rs")],
     "Families: each construct of the grammar on one line, broken at every place and at each single place, with every construct in every place of it.")
prop("B04", "Operators group by fixed priorities, whatever is combined with whatever",
     "In expressions with several operators, multiplication and division bind tighter than addition and subtraction, which bind tighter than comparisons, which bind tighter than and, which binds tighter than or; operators of one priority group from left to right. Calls and field accesses bind tighter than prefix operators, which bind tighter than every infix operator. Parentheses override all of that, and no operator or operand is lost, doubled or exchanged.",
     ["inputs"], "every sequence of operators and operands, with parentheses around any part",
     "Tests parse a few combinations of operators; a priority which is wrong for one pair, or only in a longer chain, computes something else without any error.",
     ["lib/parse/src/operations.rs", "lib/parse/src/parser.rs"],
     [("priorities", "lib/parse/src/operations.rs"), ("operators and suffixes", "lib/parse/src/parser.rs")],
     "Families: every chain of up to four operators with opaque operands, and representatives of each priority beyond that; prefix operators and suffixes at every operand.")
prop("B05", "How a program is spaced and commented never changes how it is read",
     "Blanks, line breaks and comments between the words of a program never change which program it is, and text after its last definition is refused rather than ignored. Every word of letters which is not a keyword can be a name, and a keyword never is one. Strings are read verbatim, whatever is in them, and a mark in a string does not begin a comment.",
     ["inputs"], "every program, every spacing of it, every name and every string",
     "Tests parse programs in their usual spacing; a blank which one construct does not allow, or a name which begins with a keyword, fails only in other programs.",
     ["lib/parse/src/parser.rs", "lib/parse/src/combinator.rs"],
     [("words, blanks and comments", "lib/parse/src/parser.rs"), ("grammar", "lib/parse/src/parser.rs")],
     "Families: each construct of the grammar with other blanks at every place between its words; names which are a keyword, begin or end with one; strings around every special character.")
prop("B06", "Every part of a program carries the place where it stands in its source",
     "Each part of a read program carries the path of its source, and the line and column where its own text begins, or where its operator stands, together with that line's text. Comparing two programs or two parts never depends on where they stand.",
     ["inputs"], "every program, every line break in it, and every construct",
     "Tests compare programs without looking at places; a place which is off by a blank or a line misdirects every error message and the comments which the formatter moves.",
     ["lib/parse/src/parser.rs", "lib/parse/src/input.rs", "lib/position/src/lib.rs", "lib/ast/src"],
     [("places of parts", "lib/parse/src/parser.rs"), ("comparison of places", "lib/position/src/lib.rs")],
     "Families: each construct of the grammar with every construct in every place of it, on one line and broken at every place; columns count bytes.")
prop("B07", "Generated documentation shows a package's public interface, and nothing else",
     "The documentation of a package has each of its public modules, and in each of them every public type and function which is not excluded, once and in order, with its definition or signature unchanged and the comments right above it. It shows nothing of other modules and definitions, of functions' bodies, or of the fields of records which have a private field. Comments at the top of a module which do not belong to its first definition describe the module.",
     ["inputs"], "every package, every mixture of definitions, and every comment and blank line between them",
     "Tests generate documentation of a few modules; a comment attached to the wrong definition, or a field shown of a record with mixed fields, needs another arrangement.",
     ["lib/doc/src/lib.rs", "lib/doc/src/markdown.rs", "lib/ast/src/analysis.rs", "lib/format/src/lib.rs"],
     [("sections and comments", "lib/doc/src/lib.rs"), ("what is public", "lib/ast/src/analysis.rs")],
     "Families: modules of up to three definitions out of 19 kinds with comment blocks of every shape between them; packages of up to three modules; contents of comments are opaque.")
prop("C01", "The two languages of a package agree on every function between them",
     "Each foreign function which a package's own sources import or export has exactly one counterpart in its native library, with the same calling convention and the same number and types of parameters and result. Records passed between the two have the same fields in the same order and a fixed layout on the native side. Every system package defines the functions which compiled programs call for memory, concurrency and debugging, with the types they are called with.",
     ["inputs"], "every package, every foreign function and every record which crosses between the languages",
     "Native tests call the native side with native types; the declarations in the other language are compiled by another compiler, and nothing but a crash or corrupted values shows that they differ.",
     ["packages/os/Context/context.pen", "packages/os/ffi", "packages/os-sync/ffi", "packages/core", "packages/prelude", "packages/http", "packages/sql", "packages/ffi"],
     [("declarations in packages", "packages/os/Context/context.pen"), ("native functions", "packages/os/ffi/library/src"), ("runtime functions", "packages/os/ffi/application/src")],
     "All packages in the tree; what a closure takes and what a list contains is beyond the declarations and not compared.")
prop("C02", "System functions do what they are for, and report what the system says",
     "Each function of the system packages for files, directories, standard streams, sockets, processes, the clock and the environment does the one operation it is named after, on the paths, addresses, data, limits and options it is given, each in its own role, and nothing else to the system. It gives back exactly what the operation read or counted; when the operation fails or a text cannot be decoded, it gives an error and neither succeeds nor aborts the program. When it reports success, the operation is over and what was written is out of the program's own buffers.",
     ["inputs", "faults"], "every argument, every outcome and failure of the operating system, and every length of what it reads or writes",
     "Tests would need each failure and each partial read or write of the operating system; a swapped path, a dropped failure or a buffer which is not cut to what was read shows only then.",
     ["packages/os/ffi/library/src", "packages/os-sync/ffi/library/src"],
     [("functions of the concurrent package", "packages/os/ffi/library/src/file.rs"), ("functions of the sequential package", "packages/os-sync/ffi/library/src/file.rs"), ("reading and writing", "packages/os/ffi/library/src/utilities.rs")],
     "Operations of the standard library and its asynchronous counterpart are effects with any outcome; directories and argument lists have up to two entries (four when thorough); datagrams are received whole up to 512 bytes.")
prop("C03", "Functions on texts and numbers return what they are for and never abort",
     "Each function of the packages on strings, bytes, characters, numbers, bits, hashes, escapes and regular expressions returns for every argument what it is documented to: texts are searched, cut, split, replaced and measured by characters or by bytes as the function says, with places counted from one and ends past the text meaning its end, and bytes which are no text are handled without guessing. Equal numbers and strings have equal hashes, and a hash leads to one of 32 places at every level. No argument aborts the program, whatever numbers are given as places and whatever bytes as texts.",
     ["inputs"], "every string and every number, including bytes which are no text, numbers which are not whole, negative, infinite or no number",
     "Tests sample a few short texts; mistakes show for characters of several bytes, repeated or empty patterns, places outside of the text, or signed zeros.",
     ["packages/core/ffi/src", "packages/prelude/ffi/src", "packages/json/ffi/src", "packages/html/ffi/src", "packages/regex/ffi/src"],
     [("strings as text", "packages/core/ffi/src/string/utf8.rs"), ("strings as bytes", "packages/core/ffi/src/string/byte.rs"), ("views", "packages/core/ffi/src/view.rs"), ("numbers", "packages/core/ffi/src/number.rs"), ("hashes", "packages/prelude/ffi/src/lib.rs")],
     "Families of strings have up to three characters (five when thorough) of one to four bytes each which remain open up to equality, and broken bytes; numbers are cells: whole numbers, halves, everything between them, infinities, no number. Shifts by 64 bits and more, code points which are not whole and empty patterns to split at are left open but for aborting.")
prop("C04", "The runtime keeps a program's memory, starts its tasks and loses no element",
     "Memory which a program asks its runtime for has the size and alignment it needs, keeps its contents when resized, and is freed when given back, once, whether or not the runtime logs. A spawned computation is started right away and run once, and awaiting it gives its result; yielding gives way once; racing lists gives every element of every list once, each list's in order and none waiting for another list, and ends when all of them have. The program is run once and to its end, debugging never aborts it whatever bytes it writes, and a state for tests gives what it was last set to.",
     ["inputs", "schedules"], "every size, every list of lists, every order in which tasks run, with and without logging",
     "No test runs these functions: compiled programs call them, and a lost element, a late start or a block of another alignment shows only with long lists, slow lists or large stacks.",
     ["packages/os/ffi/application/src", "packages/os-sync/ffi/application/src", "cmd/test/src", "packages/test/ffi/src/lib.rs"],
     [("memory", "packages/os/ffi/application/src/heap.rs"), ("tasks and races", "packages/os/ffi/application/src/concurrency.rs"), ("entry points", "packages/os/ffi/application/src/main.rs"), ("states for tests", "packages/test/ffi/src/lib.rs")],
     "Lists have up to two elements (three when thorough); tasks are run in the order in which they are spawned, and obligations speak of which task sends what, so that they hold for every schedule; that tasks make progress is the asynchronous runtime's part.")
prop("D01", "Compiled functions give every value back exactly once on every path",
     "In what the compiler's passes make of a function, every variable is used, copied, dropped and kept by inner functions only while it has references, and has none left when the function is left, whichever branches are taken and however early it returns. Copies and drops of a variable are of the variable's own type, and an inner function owns what it keeps, arguments and itself.",
     ["inputs"], "every function of the language, however its variables are named, shadowed, captured and left unused in some branch, and every path through it",
     "Tests compare the output for a few small functions; a variable which is moved in one branch only, or left behind by an early return, leaks or is freed twice on the other path at run time.",
     ["lib/mir/src/analysis/reference_count/transformation.rs", "lib/mir/src/analysis/lambda_lifting.rs", "lib/mir/src/analysis/environment_inference.rs"],
     [("copies and drops", "lib/mir/src/analysis/reference_count/transformation.rs"), ("what functions keep", "lib/mir/src/analysis/environment_inference.rs"), ("lifting of functions", "lib/mir/src/analysis/lambda_lifting.rs")],
     "1,500 functions (4,800 when thorough) of every expression form but foreign calls, built from few names so that they shadow and capture; all paths of each; local recursion five calls deep. Generation of machine code is not covered.")
prop("D02", "The compiler's passes never change what a function does",
     "Renaming, flattening, merging of strings, inference of environments, lifting and reference counting each give a function which makes the same calls with the same arguments in the same order and has the same result as before, for all arguments, and none of them fails. Variables which shadow others, unused and early results, thunks which run at most once, and functions which keep variables stay what they are.",
     ["inputs"], "every function of the language and every outcome of its conditions and of the functions it calls",
     "Tests of a pass compare a few trees; a mistake needs a shadowed variable, an early return inside an operand, or a function kept by another one, and would be a silent miscompilation.",
     ["lib/mir/src/analysis/alpha_conversion.rs", "lib/mir/src/analysis/normalization.rs", "lib/mir/src/analysis/optimization/string_concatenation.rs", "lib/mir/src/analysis/environment_inference.rs", "lib/mir/src/analysis/lambda_lifting.rs", "lib/mir/src/analysis/reference_count.rs"],
     [("renaming", "lib/mir/src/analysis/alpha_conversion.rs"), ("flattening", "lib/mir/src/analysis/normalization.rs"), ("merging of strings", "lib/mir/src/analysis/optimization/string_concatenation.rs"), ("environments and lifting", "lib/mir/src/analysis/lambda_lifting.rs")],
     "1,500 functions (4,800 when thorough) of every expression form but foreign calls, all paths of each; functions are compared by what they do to symbols, local recursion five calls deep.")
prop("E01", "Machine code computes what the intermediate representation says",
     "Every program's machine code makes the calls and has the results which its intermediate representation describes, with records, variants and closures laid out as the runtime library expects.",
     ["inputs"], "every program and target", "Tests compile modules and do not run them.",
     ["lib/mir-fmm/src"], [("generation of code", "lib/mir-fmm/src/expressions.rs")],
     na="The crates which generate code (fmm, fmm-llvm, LLVM) are not in this sandbox, so the type-checked program of lib/mir-fmm cannot be had; without it, calls into the builder have no meaning to analyse.")
prop("E02", "An incremental build gives what a build from scratch gives",
     "After any edit of any module, building again gives the same objects, interfaces and errors as building everything anew.",
     ["inputs", "histories"], "every package and every history of edits and builds", "Integration tests build from scratch, or twice without changes.",
     ["lib/app/src", "cmd/pen/src", "lib/ninja-build"], [("build scripts", "lib/app/src/module_build.rs")],
     na="What is rebuilt is decided at run time by another program (ninja) from time stamps and generated scripts; the guarantee speaks of that program's behaviour and of the file system, which are not in the source.")
prop("E03", "Every task of a concurrent program makes progress",
     "No spawned computation, raced list or socket operation waits for ever while what it waits for is available, whatever the others do.",
     ["schedules"], "every program and every schedule", "Tests run few tasks, whose waits are short.",
     ["packages/os/ffi/application/src/concurrency.rs", "packages/os/ffi/library/src"], [("tasks", "packages/os/ffi/application/src/concurrency.rs")],
     na="Progress depends on the asynchronous runtime's scheduler and on waits under locks which compiled programs hold by design (a socket is locked while it waits for data); C04 decides the part of this package: what starts, sends and ends.")
prop("E04", "Collections of the language keep their entries through any updates",
     "Maps and sets have exactly the entries which were inserted and not deleted, whatever their keys' hashes are.",
     ["histories"], "every history of insertions, merges and deletions, including keys whose hashes collide", "Tests of the packages insert a few numbers.",
     ["packages/prelude", "packages/core/ffi/src"], [("hash tries", "packages/prelude/Map.pen")],
     na="The collections are written in the language itself, whose compiler cannot be built here; its type-checked form is not available, and a second type checker and evaluator for it would decide the model and not the program. C03 decides the native functions under them.")
