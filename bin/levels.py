V1 = "contract-based deductive verification of the real code (Verus)"
P = ["C01","C02","C03","C04","C05","C06","C07","C08","C09","C10","C11","C12","C13","C14","C15","C16","C17","C18","C19"]
TECH = {p: V1 for p in P}
LEVEL = {p: "proof" for p in P}
A = " Assumed: see DESIGN.md section 5 (trait-object contracts as induction hypothesis, lawful Eq/Ord/Hash/Clone, deterministic user closures, contracts of std/once_cell/regex)."
NOTE = {
 "C01": "Both tokenize loops are proved equal to a recursive specification whose results tile the text; the lexeme trait's law (non-empty match at the pointer, inside the text) is discharged for every built-in lexeme." + A,
 "C02": "Order of lexemes, active state, and every state action are in the tokenizers' specification; perform_state_action, StateMixin, ThunkStateMixin, add_state and the scan loops are proved against it. An unregistered state and a pop on the empty stack abort (proved to be reached only then)." + A,
 "C03": "Longest-match tree, its constructor, and the lexeme and production built on it are proved for all registrations, texts and positions." + A,
 "C04": "Constructors and consume of every lexeme building block are proved against the property; regular expressions are an uninterpreted function of the rest of the text." + A,
 "C05": "Every terminal's advance functions are proved in the modes it supports, and the constructors of the literal sets." + A,
 "C06": "Concat, List, SeparatedList, Nullable are proved equal to their recursive semantics in all three modes, for all sub-productions." + A,
 "C07": "Union and Suffixes are proved equal to ordered choice / left-binding suffixes in all three modes, prediction tables included." + A,
 "C08": "Hidden, Node, Lookahead, Cacheable, Validator, Structural, NonStructural: result proved to be the wrapped one changed as stated." + A,
 "C09": "A validation error is part of every production's semantics and passes through every combinator unchanged (proved); the parsers report its position." + A,
 "C10": "The furthest mark is part of every production's postcondition (exactly the furthest match), and create_error of both modes and the parsers report it." + A,
 "C11": "Every function that computes a position (Code::*, Position::*) is proved for every text and position." + A,
 "C12": "The cache functions and the memoising wrapper are proved: results are those of the wrapped production, given unique keys." + A,
 "C13": "The structural view is proved exact and every navigation function is proved; iterator-returning views are taken as the sequence of their items." + A,
 "C14": "Every AST query is proved against a recursive pre-order specification for every tree." + A,
 "C15": "The span predicate (order, nesting, bounds) is a law discharged for every built-in production." + A,
 "C16": "Every validate and obtain_nullability, and both parser constructors, are proved: creation succeeds iff no nonterminal used below the root is unassigned or left recursive, for every grammar graph. A production begins with what its nullability says; that Lookahead, EOFProd, NonStructural and a RegexField with a zero-width assertion can stay where they are without being nullable are the four known findings. Termination of the walk over the grammar graph, of the declarations and of parsing (of grammars without recursion in place) is proved by a measure that every call descends." + A,
 "C17": "Nullability, hidden nullability and first sets are proved sound for every built-in production, and the prediction tables are proved to exclude nothing that could match." + A,
 "C18": "Every loop over input carries a decreases clause discharged by Verus (lists and separated lists stop on an empty repetition); parsing descends a measure from call to call (for grammars without recursion in place that do not nest token-kind switches)." + A,
 "C19": "Every entry point is proved to be tokenize / structural view / root production on a fresh cache; validate is C16's contract." + A,
}
