"""Single source of properties.jsonl, MANIFEST.json and the property table of DESIGN.md (python3 tools/gen.py)."""
INP = ['inputs']
INH = ['inputs', 'histories']

P = []


def prop(id, title, statement, over, text, why, files, mech, level='other', note='', na=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]), level=level, note=note, na=na))


TRUST = ('Sound for the modelled part of MIR and std (collections, iterators, integers without overflow); a construct outside the model makes '
         'the obligation inconclusive, which is reported in the evidence and does not alarm. ')

prop('P01', 'Symbols handed out are unique and keep their names',
     'Every symbol a grammar hands out is different from all symbols it handed out before, symbols are numbered consecutively from zero, and the '
     'symbol count equals the number handed out. A name given to a symbol is returned for that symbol and for no other, and stays with it when '
     'symbols are renamed. Generating several symbols at once, or lazily, is the same as generating them one by one.',
     INH, 'all sequences of symbol generation (named, unnamed, bulk, lazy), look-up and renaming',
     'Tests generate a handful of symbols in one order; uniqueness and name alignment are invariants of every interleaving of the generation calls.',
     ['cfg-symbol/src/source.rs', 'cfg-symbol/src/symbol.rs', 'cfg-grammar/src/cfg.rs'],
     [('counter and name table advance together', 'SymbolSource::next_sym'), ('lazy and bulk generators', 'SymbolSource::sym, generate, generate_fresh'),
      ('renaming of the name table', 'SymbolSource::remap_symbols')],
     note=TRUST + 'Inductive step of every operation of the symbol source is compared with its specification; the invariant follows by induction over histories.')

prop('P02', 'Symbol numbers survive every encoding',
     'Encoding a symbol and decoding it again gives the same symbol in every supported format. The textual decoder accepts exactly the numbers that are '
     'encodings of a symbol and rejects every other number with an error. The number of a symbol counts from zero in every accessor.',
     INP, 'all symbols and all encoded numbers of every width',
     'Round-trip tests use one or two small symbols; the off-by-one and range clauses are about all 2^32 numbers.',
     ['cfg-symbol/src/symbol.rs'], [('affine encoders/decoders', 'Serialize/Deserialize, SerBin/DeBin for Symbol'), ('number accessors', 'Symbol::usize and From/Into impls')],
     note=TRUST + 'Encoders and decoders are affine maps with guards, composed symbolically.')

prop('P03', 'Renaming symbols is uniform over the whole grammar',
     'Renaming by any map changes every occurrence of every symbol in rules, roots and wrapped roots by that map and nothing else, and the name table moves along. '
     'The mapping returned to the user is a two-way table of exactly the renaming performed, also after several renamings in a row. '
     'Dropping unused symbols renumbers the used ones to a prefix and cuts exactly the unused ones.',
     INP, 'all grammars, all renaming maps, all compositions of renamings',
     'Existing tests check one small grammar; a missed position (a root, a wrapped root, the last symbol) is invisible there.',
     ['cfg-symbol-bit-matrix/src/remap_symbols.rs', 'cfg-symbol/src/intern.rs', 'cfg-symbol/src/source.rs'],
     [('renaming pass', 'Remap::remap_symbols'), ('mapping table', 'Mapping::translate / Remap::reorder_symbols'), ('unused symbols', 'Remap::remove_unused_symbols')],
     note=TRUST + 'The renaming is an uninterpreted function, so one symbolic pass covers every map.')

prop('P04', 'Wrapping the input adds one start/end frame per root',
     'Wrapping gives every root exactly one new root whose only rule is start-of-input, the old root, end-of-input, over three fresh symbols of its own. '
     'The recorded wrapped root, the new root list and the added rule name the same four symbols, in the order of the old roots. '
     'Nothing else in the grammar changes, and wrapping again frames the then current roots and replaces the record.',
     INH, 'all grammars with any number of roots, wrapped any number of times', 'Tests wrap one root once.',
     ['cfg-grammar/src/cfg.rs'], [('root wrapping', 'Cfg::wrap_input')], note=TRUST)

prop('P05', 'A right-hand-side length limit holds for every stored rule',
     'Once a limit of two or more is set, every stored rule fits it, whichever operation stored the rule, and rules already stored are split as well. '
     'Splitting a rule is exact: each helper symbol is fresh, used once, and expanding the helpers gives back the original left- and right-hand side in order. '
     'Rules that fit are stored unchanged, and the number of stored pieces is reported.',
     INH, 'all limits of at least two, all right-hand-side lengths, all sequences of insertion, extension and re-limiting',
     'Tests use limits 2 and 3 with few lengths; boundary lengths (limit, limit+1, exact multiples) and all writers of the rule list are not covered.',
     ['cfg-grammar/src/cfg.rs'], [('splitting loop', 'Cfg::add_rule'), ('re-insertion', 'Cfg::limit_rhs_len'), ('writers of the rule list', 'Cfg::extend, set_rules, retain, reverse, binarize_and_eliminate_nulling_rules')],
     note=TRUST + 'The splitting loop is decided by its inductive step: re-expanding the helper restores the remaining symbols.')

prop('P06', 'Derived rules carry the origin and records of the rule they came from',
     'A history built for a basic rule has the origin it was given (none for no-ops, zero for plain rules, the rule number otherwise) and nothing else. Every update changes exactly its own record: splitting '
     'keeps the origin on the topmost piece only and leaves helper pieces without one; dropping a nullable symbol records that symbol and its side and keeps all else; a rule of the nulling grammar keeps only its origin; weights are '
     'stored in thousandths; sequence details are stored as given; precedence changes nothing; dots trace to the rule itself or nowhere. When a rule is split in twos, every piece records its height in the chain, the full length '
     'and whether it is the topmost one, whichever rule and length is split. Reading a history gives back what is stored, and dots beyond the third trace nowhere.',
     INP, 'all rules and histories', 'Semantics of a parse are looked up through these records; tests compare printed histories of a handful of rules.',
     ['cfg-history/src/earley/mod.rs', 'cfg-history/src/lib.rs', 'cfg-grammar/src/cfg.rs'], [('updates', 'process_linked, From<HistoryNode*> for History'), ('splitting', 'Cfg::add_rule'), ('nulling elimination', 'Cfg::binarize_and_eliminate_nulling_rules')],
     note=TRUST + 'The numeric positions stored in dots are undocumented and not claimed.')

prop('P07', 'Nulling elimination produces exactly the shortened and the nulling rules',
     'binarize_and_eliminate_nulling_rules first limits right-hand sides to two symbols; a symbol is nullable iff some rule of it has only nullable symbols. If there are none, nothing else changes. Otherwise the returned grammar, '
     'which shares the symbol table, holds exactly the rules all of whose symbols are nullable; every two-symbol rule also yields the rule without its nullable symbol (both shorter rules when both are nullable); and of the old and the '
     'new rules exactly the non-empty ones whose left-hand side can still derive something are kept, unchanged.',
     INP, 'all grammars', 'Tests eliminate nulling rules of three small grammars; combinations of both-nullable rules, self-reference and chains of nullable symbols are sampled once or not at all.',
     ['cfg-grammar/src/cfg.rs'], [('elimination', 'Cfg::binarize_and_eliminate_nulling_rules'), ('ranges', 'BinarizedRhsRange::as_range, negate')],
     note=TRUST + 'Relies on P05 for splitting and P08 for closures. Rules that mention symbols left without rules are kept by the code and by an existing test; not claimed either way.')

prop('P08', 'Right-hand-side closures are least fixpoints',
     'Closing a symbol set under "all" (or "any") right-hand-side symbols yields exactly the least set that contains the given one and, for every rule all '
     '(any) of whose right-hand-side symbols are in it, the left-hand side. The weighted closure only ever lowers a value, assigns every symbol the least sum '
     'over its rules, and propagates every improvement. The occurrence table behind both lists every rule under each symbol it mentions. Neither changes the rules.',
     INP, 'all grammars, all initial sets and values', 'Tests query a few sets on small grammars in one rule order; a missed re-examination shows only for particular orders.',
     ['cfg-grammar/src/cfg.rs', 'cfg-grammar/src/occurence_map.rs'], [('work-list loop', 'Cfg::rhs_closure'), ('weighted work-list loop', 'Cfg::rhs_closure_with_values'), ('occurrence table', 'OccurenceMap::from_rules')],
     note=TRUST + 'Work-list invariants (seeding, examination of all dependants, queueing of every change, empty at exit) are checked on the loop summaries; termination is not claimed.')

prop('P09', 'Sequence rules are rewritten to rules producing exactly the allowed repetitions',
     'The productions added for a sequence rule generate, from its left-hand side, exactly the strings of n elements with min <= n <= max (no limit when there is none) arranged by its separator mode: nothing between elements, a separator between, '
     'a separator after each, or either of the last two. Helper symbols are fresh, one per distinct sub-sequence, each is itself rewritten, and reduction to sub-sequences is well founded. Every emitted rule carries the history given with the sequence rule. '
     'Ranges given in Rust syntax mean the inclusive bounds they denote; the builder uses a range and a history for one rule only and starting a rule resets the separation.',
     INP, 'all sequence rules whose minimum does not exceed their maximum', 'A handful of fixed ranges are compared with golden output; the rewriting splits by powers of two and has separate cases for exact counts, spans, unlimited repetition and every separator mode.',
     ['cfg-sequence/src/rewrite.rs', 'cfg-sequence/src/lib.rs', 'cfg-sequence/src/builder.rs', 'cfg-sequence/src/destination.rs'],
     [('rewriting', 'SequencesToProductions::rewrite'), ('ranges', 'Sequence::range, SequenceRuleBuilder::range'), ('builder', 'SequenceRuleBuilder::rhs, rhs_with_history'), ('destination', 'SequenceDestination::add_sequence')],
     note=TRUST + 'Counts are taken below 2^31, where next_power_of_two does not overflow. The element and the separator are taken to be different symbols.')

prop('P10', 'Precedenced rules compile to levels with the stated associativity',
     'The tightest level and every looser one is a fresh symbol; each looser level has a rule to the one before it, and finishing adds a rule from the left-hand side to the loosest. An alternative belongs to the level it was built at. In a '
     'left-associative alternative the leftmost occurrence of the left-hand side stays at that level and all other occurrences become the tighter one; right-associative, the rightmost; in a grouped one all become the loosest. '
     'Other symbols, lengths and histories are kept. Associativity and history serve one alternative.',
     INP, 'all sequences of builder calls; right-hand sides of up to 4 symbols with the left-hand side at any positions', 'Tests build one calculator grammar; alternatives with several operands, grouping at inner levels and defaults after explicit settings are not sampled.',
     ['cfg-grammar/src/precedenced_rule.rs'], [('alternatives', 'PrecedencedRuleBuilder::rhs, rhs_with_history'), ('levels', 'PrecedencedRuleBuilder::new, lower_precedence, finalize')],
     note=TRUST + 'The rule for operands is decided for right-hand sides of at most 4 symbols (every choice of operand positions); grouped alternatives and levels for all lengths.')

prop('P11', 'Unit-derivation cycles are found, removed and rewritten exactly',
     'A grammar is cycle-free iff no symbol derives itself through unit rules between different symbols; a rule is cyclical iff it is a unit rule whose right-hand side derives its left-hand side. '
     'Removing cycles drops exactly the cyclical rules. Rewriting drops them too, replaces every member of a cycle by one member of it in every other rule, the roots and the wrapped roots, and leaves all else as it was.',
     INP, 'all grammars', 'Tests rewrite three small grammars made of unit rules; longer right-hand sides, roots on cycles and self-loops on cycles are not covered.',
     ['cfg-classify/src/cyclical.rs'], [('rewriting', 'Cycles::rewrite_cycles'), ('removal', 'Cycles::remove_cycles'), ('classification', 'Cycles::classify, cycle_participants, cycle_free')],
     note=TRUST + 'Relies on P22 for the unit-derivation relation.')

prop('P12', 'Useless rules are exactly the unproductive or unreachable ones',
     'A rule is productive iff every symbol of its right-hand side is terminal, nulling or left-hand side of a productive rule, and reachable iff its left-hand side is reachable from the given roots. '
     'The per-rule verdicts, the grammar-wide summaries, the list of useless rules, their removal and make_proper() all agree with this, and removal keeps every useful rule unchanged.',
     INP, 'all grammars and all choices of roots', 'Tests check that a few good grammars are fully useful; grammars with several roots, unused symbols or only one kind of defect are not covered.',
     ['cfg-classify/src/useful.rs', 'cfg-classify/src/lib.rs'], [('verdicts', 'Usefulness::new, reachable, usefulness'), ('removal', 'Usefulness::remove_useless_rules'), ('entry points', 'CfgClassifyExt::make_proper, usefulness, usefulness_with_roots')],
     note=TRUST + 'Relies on P08, P14 and P22 for the sets it is computed from.')

prop('P13', 'FIRST, FOLLOW and LAST sets are the least solutions of their equations',
     'FIRST of a left-hand side holds, for each of its rules, FIRST of the right-hand side: the symbols that can start it, and none iff all of it is nullable. FOLLOW of a nonterminal holds FIRST of what comes after it in any rule and, where that is '
     'nullable, FOLLOW of the left-hand side; none for roots. The sets start from nothing, every pass adds exactly that, and the computation ends only when a pass adds nothing. FIRST of a string is the union up to its first symbol that is not '
     'nullable. LAST is FIRST of the reversed grammar.',
     INP, 'all grammars; the transfer of one pass decided for up to 3 rules and right-hand sides of up to 3 symbols, under every way symbols coincide', 'Tests check FIRST and LAST of two grammars and never FOLLOW; cycles, late nullability and nullable prefixes are not sampled.',
     ['cfg-predict-sets/src/first.rs', 'cfg-predict-sets/src/follow.rs', 'cfg-predict-sets/src/last.rs'], [('FIRST', 'FirstSets::new, first_set_for_string'), ('FOLLOW', 'FollowSets::new'), ('LAST', 'LastSets::new')],
     note=TRUST + 'Relies on P14 for the set of terminals. The equations are decided for rule lists of bounded shape; right-hand sides longer than 3 symbols are not analysed.')

prop('P14', 'Symbol sets contain exactly the symbols their query names',
     'The terminal, used, unused, nulling, productive queries yield exactly the symbols of the grammar that satisfy their definition, whatever the set held before where the query starts afresh. '
     'Negation, union, reset, reservation, membership, counting, emptiness and iteration of symbol sets are the set operations they name, position for position.',
     INP, 'all grammars and all sets', 'The sets are used by every other analysis, and tests never look at the last symbol, the empty set or a reused set.',
     ['cfg-grammar/src/symbol_bit_set.rs', 'cfg-grammar/src/cfg.rs'], [('queries', 'SymbolBitSet::terminal, used, unused, nulling, productive, subtract_productive'), ('set operations', 'SymbolBitSet::union, negate, iter, all, is_empty, reserve')], note=TRUST)

prop('P15', 'Loading BNF text builds exactly the grammar the text spells',
     'load and load_advanced turn a text in their notation into one rule per alternative, in order, with history origins from 1; equal names are one symbol, different names different symbols, names can be read back; the first left-hand side outside '
     'a lexer block is the root; "*" and "+" stand for fresh symbols with sequences of at least none or one; string literals are symbols of their own with one rule over classes that match exactly their characters, actions and lexemes are recorded '
     'for exactly the rules and symbols that have them. Any other text gives an error, never a panic; text that cannot be split into tokens is reported at the line and column of the first character that starts no token. '
     'to_bnf prints every rule in that notation, so that loading it gives the rules back.',
     INP, 'texts with every construct of the two notations, alone and in combination, every kind of syntax mistake, and every ASCII character (and five others) at the start of a token, inside a name and inside a literal',
     'Tests load three well-formed grammars; mistakes, characters at the edges of the classes, repeated literals, blocks out of order and positions after several lines are not sampled.',
     ['cfg-load/src/basic.rs', 'cfg-load/src/advanced.rs', 'cfg-load/src/string_interner.rs'],
     [('basic notation', 'CfgLoadExt::load, Lexer, eat_token'), ('rich notation', 'CfgLoadAdvancedExt::load_advanced'), ('printing', 'CfgLoadExt::to_bnf')],
     note=TRUST + 'The parser generator and the string pool are taken at their specification (a function of the syntax table given to them). Regexp(...) tokens, the work of an external regular expression parser, are not covered; texts are analysed one by one, '
     'so a fault that needs a longer text than those covered is out of reach.')

prop('P16', 'LL(1) classification follows the parse table',
     'Rule A -> w is in the cells of A for every terminal in FIRST(w) and, where w is nullable, for every terminal in FOLLOW(A). classify() calls a nonterminal context-free when one of its cells holds two rules or when one of its rules reaches, '
     'directly or not, a context-free nonterminal, and LL(1) otherwise; exactly the nonterminals with a nonempty row are classified.',
     INP, 'all FIRST and FOLLOW sets over two terminals for grammars of up to 4 rules in 9 shapes', 'Tests check one grammar; a conflict in one cell beside a conflict-free cell, conflicts by FOLLOW and inherited conflicts are not sampled.',
     ['cfg-classify/src/ll.rs'], [('table', 'LlParseTable::new'), ('verdicts', 'LlParseTable::classify, LlClassification::classes')],
     note=TRUST + 'Relies on P13 for FIRST and FOLLOW and on P08 for the closure over right-hand sides. Cells where one nullable rule is entered twice are compared only where both readings give the same classes.')

prop('P17', 'Recursive rules are found with the right kind of recursion',
     'recursive_rules() reports, in rule order, exactly the rules some right-hand-side symbol of which derives the left-hand side in one or more steps or is it: left iff the first symbol does, right iff the last one does, middle iff one strictly '
     'between does. minimal_distances() reports the same rules and kinds, measures from exactly the positions before recursive symbols, in both directions, and reports the distances at the start and at the end of the rule.',
     INP, 'all reachability relations over rule lists of up to two rules with right-hand sides of up to 3 symbols under every way symbols coincide, and of 4 and 5 symbols', 'Tests check two reported rules of one grammar each; several recursive positions, length one and longer right-hand sides are not sampled.',
     ['cfg-classify/src/recursive.rs'], [('rules', 'Recursion::new, recursive_rules'), ('distances', 'Recursion::minimal_distances')],
     note=TRUST + 'Relies on P22 for the reachability relation. The distances themselves are not part of this property.')

prop('P19', 'The rule builder adds exactly the rules it is told to',
     'Every rhs call of the rule builder adds exactly one rule: the left-hand side named last, the symbols in the given order, and the history given with the call, or the pending one, or the default of a new rule of that left-hand side; '
     'a linked history is applied on top of the default. A history set with history() serves the next rhs() only and is dropped by rule(); the last one set counts. Starting a rule adds nothing and leaves rules and roots unchanged.',
     INP, 'every sequence of up to three builder calls after rule() (thorough: four), with any symbols and histories', 'Tests build rules one way; histories left over from an earlier call never show there.',
     ['cfg-grammar/src/rule_builder.rs', 'cfg-grammar/src/cfg.rs'], [('builder calls', 'RuleBuilder::rule, history, rhs, rhs_with_history, rhs_with_linked_history; Cfg::rule')],
     note=TRUST + 'Whether rhs_with_history uses up a pending history is left open. Relies on P05 for storing the rule and on P06 for the histories.')

prop('P20', 'Random generation yields strings of the grammar within shares and limits',
     'Generation expands the first symbol of the remaining work: a symbol with rules is replaced by one of its own right-hand sides, in order; a symbol without rules is put out once, its character (if to_char gives one) is appended to the text; '
     'the result is Ok only when no work remains. A symbol with a negative rule and no rules stands for nothing, and its forbidden text never follows at that place: when it does, output, text, remaining work and random source return to that place and every place recorded later is forgotten. '
     'LimitExceeded is returned iff more symbols than limit.terminals were put out; at most limit.negative_rule_attempts returns are made for a place. A rule is chosen by its share: weight/1000, or 1 without a weight; a value strictly inside the share of a rule picks that rule.',
     INP, 'all grammars, negative rules, limits and random values; the shares for up to three rules (thorough: four) of any weights', 'Tests look at a few seeds of two grammars, one negative rule at a time.',
     ['cfg-generate/src/weighted/random.rs', 'cfg-generate/src/weighted/weighted_rhs_by_lhs.rs'],
     [('one pass of the generation loop', 'Cfg::random'), ('recorded places and returns', 'Cfg::random'), ('the weight table', 'Weighted::weighted, WeightedRhsByLhs::add_weight, pick_rhs')], note=TRUST)

prop('P21', 'Rule-list operations do exactly what they name',
     'Sorting orders rules by left-hand side, then right-hand side (or by the given comparison); dedup drops consecutive rules with the same sides and no others; retain keeps exactly the accepted rules; clear_rules removes all; '
     'reverse reverses every right-hand side; extend adds every rule of the other grammar; all of them leave rules they keep, the roots and the symbols unchanged. column(n) lists, for every rule in order, the symbols around position n and '
     'its history dot. Two grammars are equivalent iff they have the same number of rules and the rules agree in order on both sides. Roots and wrapped roots read back as set.',
     INP, 'all grammars', 'Tests compare small lists of rules that differ at the first symbol; ties, prefixes and positions at the end are not sampled.',
     ['cfg-grammar/src/cfg.rs', 'cfg-grammar/src/compare.rs'], [('operations', 'Cfg::sort, sort_by, dedup, retain, clear_rules, reverse, extend, rules, set_roots'), ('columns', 'Cfg::column'), ('comparison', 'Cfg::equivalent')], note=TRUST)

prop('P22', 'Derivation matrices hold exactly the relation they name',
     'The direct-derivation matrix relates a left-hand side to exactly the symbols of its right-hand sides; the reachability matrix is its transitive closure; the unit-derivation matrix is the transitive closure '
     'of the unit rules between different symbols. Making a matrix reflexive adds only the diagonal. Indexing reads row first, and iterating a row yields exactly its symbols.',
     INP, 'all grammars', 'Tests use matrices only through cycle and recursion checks of tiny grammars.',
     ['cfg-symbol-bit-matrix/src/symbol_bit_matrix.rs'], [('construction', 'CfgSymbolBitMatrixExt::direct_derivation_matrix, reachability_matrix, unit_derivation_matrix'), ('reading', 'SymbolBitMatrix::index, iter_row_syms')],
     note=TRUST + 'The closure operations of the bit-matrix crate are trusted.')

prop('P23', 'The LR(0) machine has the item sets and transitions of its definition',
     'make_lr0_fsm(start) returns the item sets reachable from the closed item of an added rule for start through terminals: the first node is that set, every node links exactly the terminals that stand after a dot in it to the node holding the closure '
     'of the items advanced over that terminal, no two nodes hold the same items, and building again with the same builder gives the machine of the grammar as it then is. closure() adds exactly the rules, with the dot in front, of every nonterminal after a dot; '
     'advance() moves the dot of exactly the items that have the symbol after it, closes the result, and returns None when there are none.',
     INP, 'all grammars of up to two rules in 7 shapes under every way symbols coincide (thorough: 10 shapes) and 10 chosen ones, with every start symbol; item sets that hold a rule at one dot only',
     'Tests build the machine of one grammar and look at one node; sets reached twice, links back, closure through several rules and a second run are not sampled.',
     ['cfg-classify/src/lr.rs'], [('the machine', 'Lr0FsmBuilder::make_lr0_fsm'), ('the steps', 'Lr0ClosureBuilder::closure, advance'), ('entry points', 'CfgClassifyExt::lr0_fsm_builder, lr0_closure_builder')],
     note=TRUST + 'Known finding: an item set that needs one rule at two dots loses one of them, because Lr0Items keeps one item per rule. Relies on P12 for the terminals of a grammar.')

prop('P26', 'The printed grammar shows every rule in the documented format',
     'stringify_to_bnf prints every rule, in order, on its own line: left-hand side, " ::= ", the right-hand side symbols separated by " ~ " (or "()" when there are none), and ";". A symbol shows its name and number, a nameless one "g", its number '
     'and its number; only numbers appear exactly when no symbol of the grammar has a name. Named rules are equal iff their sides carry the same names, position for position, and their histories agree where both have one.',
     INP, 'all grammars', 'The printed form is what users and most tests compare grammars by; tests print fully named or fully nameless grammars.',
     ['cfg-grammar/src/cfg.rs', 'cfg-symbol/src/source.rs'], [('printing', 'Cfg::stringify_to_bnf'), ('names', 'SymbolSource::name_of'), ('named rules', 'NamedCfgRule::eq, CfgRule::named')], note=TRUST + 'Formatting of integers and strings by the standard library is trusted.')
