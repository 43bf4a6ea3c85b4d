Q = "TLA+ contract (TLC): states enumerated exhaustively by the model, every query form made in each of them in the real code, trace validation"
QN = "Exhaustive over the listed type-list classes, every storage state (inline, recursive_wrapper, displaced to the heap) of 2+1 variants, every form, value category and throwing point of the query. Trusts TLC, the compiler, the sanitizers and the instrumented element types."
for p in ("C06", "C07", "C08", "C09", "C10", "C18", "C19"):
    CLAIMED[p] = (Q, "model_checking", QN)
CLAIMED["C11"] = ("TLA+ model of overload resolution and its state machine (TLC): every edge executed in the real code with every value category, trace validation; core contract for foreign variants in every storage state",
                  "model_checking", "Exhaustive over all ordered pairs of 17 argument/alternative types and a seeded sample of longer lists; the model's overload resolution is itself compared with the compiler's in every step.")
CLAIMED["C12"] = ("TLA+ specification of recursive variants as tree values (TLC): every operation in every small state executed in the real code with every throwing point, plus random histories; trace validation",
                  "model_checking", "Exhaustive (sampled to 2500 per tree type in the quick tier) over two variables with trees up to the bounds in bin/tree.py, six ways of declaring the recursion, two element classes, every fault point.")
CLAIMED["C13"] = ("TLA+ specification of variants over references (TLC): every operation in every shape of two variables and four objects executed in the real code, histories replayed on the specification, trace validation",
                  "model_checking", "Exhaustive over seven variant types mixing reference, const reference and value alternatives, two variables, four referents, all copy/convert/write/destroy operations and all ways of reaching the content.")

CLAIMED["C16"] = ("the TLA+ contract used for the other properties (TLC-generated scenarios and trace validation), on drivers built in every kind of build and with the type list written in every form",
                  "model_checking", "A covering selection (quick) or the product (thorough) of gcc/clang, C++11-20, optimisation levels, sanitizers, NDEBUG, BOOST_VARIANT_MINIMIZE_SIZE, no RTTI, and direct / make_variant_over / recursive / 23, 30, 41 and 130 type lists, all judged by the same specification with every clause switched on.")
CLAIMED["C17"] = ("TLA+ specification of which programs are well-formed and what traits report (TLC enumerates the program families), each program compiled against the tree, outcomes validated by TLC",
                  "model_checking", "Exhaustive over the program families of Interface.tla (about 1300 programs) and about 2800 trait questions; other compilers and standards sampled.")
