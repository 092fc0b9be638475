"""Single source for properties.jsonl and MANIFEST.json (spec/gen.py writes both)."""
PD = 'copra/src/phase_driver.c'
DC = 'copra/src/dynamic_core.c'

# id, title, statement, over, quantifier text, why tests cannot, files, mechanisms [(name, where)], technique, level_note
AG = 'cocogen/frontend/attribute_scheduler/'
PROPS = []


def prop(id, title, statement, over, qtext, why, files, mech, technique=None, note=None, na=None, state=()):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                      mech=mech, technique=technique, note=note, na=na, state=state))


NOTE_AI = ('Decided for every path of the analysed functions by abstract interpretation of the current source '
           '(ESP-style typestate x symbolic store, loops by widening to a fixpoint, callees inlined). '
           'Trusted: clang front end, the rule engine in lib/. ')

prop('C01', 'Traversals nest like a stack and own their data record',
     'Starting a traversal pushes one fresh record (its type, and its data initialised exactly once by the initialiser of that traversal type) on top of the enclosing one; when it ends, its own finaliser runs exactly once on that record, the record is released exactly once and never used again, and the enclosing traversal is current again exactly as it was. '
     'This holds for starting on an empty tree as well.',
     ['histories', 'programs'], 'every nesting of traversals, every traversal type and every tree (including the empty one)',
     'No test runs a generated compiler; the self-build only starts traversals of one nesting pattern and would not notice a leaked, re-used or un-restored record.',
     [DC, 'cocogen/ccngen/trav.c'], [('push/pop', 'TRAVpush/TRAVpop in ' + DC), ('data tables', 'trav_data_init_vtable / trav_data_free_vtable')],
     'typestate abstract interpretation of the traversal stack functions + table rules',
     NOTE_AI + 'Assumes handlers themselves leave the stack balanced (they only use the same API).')
prop('C02', 'A visited node is dispatched once to the handler registered for it',
     'Visiting a node runs exactly one handler: the one registered for the (current traversal, node type) pair, on that very node, and the visit returns what the handler returned; visiting an absent child runs nothing and yields the absent child. '
     'Visiting the children of a node visits each present child once, in declaration order, and each child slot then holds the result of that visit. '
     'Starting a pass runs exactly its registered function and returns its result, and an unregistered combination never continues silently.',
     ['inputs', 'programs'], 'every tree shape, node type, traversal and pass',
     'The tests never execute generated traversals apart from the self-build, whose trees do not distinguish a dropped result, a skipped last child or a wrong enclosing table.',
     [DC, 'cocogen/ccngen/trav.c', 'cocogen/ccngen/pass.c'] if False else [DC, 'cocogen/ccngen/'],
     [('dispatch', 'TRAVdo, TRAVopt, TRAVchildren, PASSstart in ' + DC), ('tables', 'ccn_trav_vtable, ccn_pass_vtable')],
     'abstract interpretation of dispatch functions; loop invariant by widening; table/enum agreement', NOTE_AI)
prop('C03', 'With checking enabled no action runs on an inconsistent tree',
     'While tree checking is enabled, every action of a compilation (pass, traversal or phase) is preceded by a consistency check of the tree it is about to work on, and the compilation stops before the action whenever that check reported an error. '
     'Disabling checking is the only way to skip it.',
     ['programs', 'histories'], 'every phase structure, every tree and every sequence of actions',
     'No test runs a compiler whose tree becomes inconsistent between two actions.',
     [PD], [('check before dispatch', 'CCNdispatchAction in ' + PD)], 'path-sensitive typestate over the phase driver', NOTE_AI +
     'Decides that the check runs and gates the action; what the generated check accepts is C24\'s subject.')
prop('C04', 'Signalled action and phase errors always stop the compilation in time',
     'After an action during which an action error was signalled, no further action of any phase or cycle runs: the compilation aborts with a failing exit status. '
     'A phase error lets the remaining actions of the phase it was signalled in run, but that phase never ends normally: the compilation aborts at its end, also when other phases are nested in or around it.',
     ['programs', 'histories'], 'every phase nesting, cycle iteration and point at which an error is signalled',
     'No test signals an error in a generated compiler.',
     [PD, 'palm/src/ctinfo.c'], [('error flags', 'CCNerrorAction/CCNerrorPhase, CCNdispatchAction, StartPhase in ' + PD), ('abort', 'CTIabortCompilation')],
     'path-sensitive typestate over the phase driver', NOTE_AI)
prop('C05', 'Cycles repeat exactly until their fixed point or the iteration limit',
     'A cycle runs its actions again if and only if, during the iteration just finished, it was notified that no fixed point is reached and fewer iterations than the configured maximum were made; a phase that is not a cycle runs once. '
     'Nested phases and cycles do not disturb this: neither the iteration count nor a notification of an enclosing cycle is lost or invented by a nested one.',
     ['programs', 'histories'], 'every nesting of phases and cycles and every pattern of notifications',
     'No test runs a cycle at all.',
     [PD], [('cycle loop', 'StartPhase in ' + PD), ('notification', 'CCNcycleNotify, CCNsetCycles')],
     'path-sensitive typestate over the phase driver', NOTE_AI)
prop('C06', 'Action ids number the actions in tree order, independent of gates and cycles',
     'The current action id during an action is its position in the pre-order of the whole action tree, counted from the root: the same number in every cycle iteration, whether or not earlier phases were skipped by their gate, and the same number the action-tree display shows. '
     'A phase whose gate says no runs none of its actions; otherwise the gate is asked once, before the first action.',
     ['programs', 'histories', 'configurations'], 'every phase structure, gate outcome and iteration count',
     'Tests never look at action ids, gates or the displayed tree of a generated compiler.',
     [PD], [('id counter', 'CCNdispatchAction, StartPhase, SkipPhase, ShowTree in ' + PD)],
     'path-sensitive typestate over the phase driver', NOTE_AI)
prop('C07', 'A breakpoint stops exactly after the action it names',
     'When a breakpoint is set by name path or by action id, the compilation stops right after the matching action (never before it ran, never after a later one), having called the breakpoint handler once with the tree that action produced; actions that match neither never stop it. '
     'A phase on the path of the breakpoint leaves the breakpoint as it found it when it ends without reaching the target.',
     ['programs', 'configurations'], 'every breakpoint string/id and every phase structure',
     'No test sets a breakpoint.',
     [PD], [('breakpoint test', 'CCNdispatchAction, StartPhase, Checkbreakpoint in ' + PD)],
     'path-sensitive typestate over the phase driver', NOTE_AI + 'The textual splitting of the path into components is analysed only as far as the relation between the name of the action and the remaining path.')
prop('C08', 'A compiler run starts clean, runs the root action once and frees the tree',
     'Each compiler run starts with action ids, iteration counts and error flags cleared, runs the start phase exactly once on the given tree, and then runs the free traversal exactly once on the tree that the start phase produced.',
     ['histories'], 'every sequence of runs in one process and every tree',
     'The self-build runs once per process, so left-over state or a leaked result tree is invisible.',
     [PD], [('run', 'CCNrun in ' + PD)], 'abstract interpretation of the run entry point', NOTE_AI)
prop('C09', 'A phase runs exactly its declared actions, in order, threading the tree',
     'Each iteration of a phase runs every action of its action table exactly once, in the declared order, and nothing else; each action is run as what it is (pass, traversal or phase). '
     'The tree each action returns is the one the next action, and finally the caller of the phase, receives.',
     ['programs', 'histories'], 'every action table and every tree',
     'Only one phase structure (the self-build) is ever run by the tests.',
     [PD, 'cocogen/ccngen/action_handling.c'], [('action loop', 'StartPhase, CCNdispatchAction in ' + PD)],
     'path-sensitive typestate over the phase driver', NOTE_AI)
HT = 'palm/src/hash_table.c'
prop('C10', 'The hash table is a faithful map for every sequence of operations',
     'After any sequence of operations the table holds exactly the last value inserted for every key that was not removed since: insert replaces the value of an equal key and otherwise adds one entry; remove takes out exactly that entry and returns its value; lookup returns the current value or nothing; the element count is exact; clear and delete release every entry exactly once; '
     'map, fold, iteration and copying visit every entry exactly once. The predefined tables hash keys that they consider equal alike.',
     ['inputs', 'histories'], 'every table size, key distribution (all collision patterns) and operation sequence',
     'The symbol tables of the meta-compiler use a few short keys; collisions in a particular chain position, removal, clearing and iteration across buckets do not occur in the tests.',
     [HT, 'palm/include/palm/hash_table.h'], [('chains', 'HTinsert, HTremove, HTlookup in ' + HT), ('sweeps', 'HTclear, HTmap*, HTfold, HTiterate*')],
     'abstract interpretation of each operation with a chain/bucket cursor monitor (loops to a fixpoint)', NOTE_AI + 'User supplied hash/equality functions are assumed pure.')
NOTE_GEN = ('Static: the generator back end (format strings, loops and branches of every handler in /repo\'s current source) is abstractly interpreted over symbolic specifications (lib/skel.py) that contain every '
            'construct and option of the language; the derived text is type-checked by clang and each derived function is interpreted symbolically for all inputs. Nothing is executed. '
            'Bound: the skeleton specifications; they cover every branch of the handlers and two or more elements of every list, names and list lengths beyond that are not enumerated. '
            'Derivation was validated token for token against the real generator\'s output. ')
BE = 'cocogen/dynamic_backend/'
GT = 'derivation of the generated program by abstract interpretation of the generator + symbolic semantics of the derived functions'
prop('C22', 'Generated dispatch tables and enums agree entry by entry',
     'For every specification, in the generated compiler: the enums of node types, traversals, passes and node sets have one distinct value per declared item between their NULL and SIZE values, user enums have one distinct non-zero enumerator per declared value with the declared prefix; '
     'the traversal tables, the pass table and the traversal data tables have exactly one entry per enumerator, and the entry at an enumerator\'s index is the function of that very item: '
     'the user function for a node the traversal handles, the continue-to-children or stop function for other nodes, the built-in function of that node type for copy, free and check, and an error function for the NULL values.',
     ['programs'], 'every specification, any number and spelling of nodes, traversals, passes and enums',
     'The only generated code the tests look at is the one for cocogen itself; a shifted or wrong entry for a feature it does not use is invisible.',
     [BE], [('enums', BE + 'gen_enums.c'), ('traversal tables', BE + 'gen_node_trav_table.c, gen_trav_v_table.c, gen_trav_table.c'), ('pass table', BE + 'gen_pass_table.c'), ('data tables', BE + 'gen_trav_data_tables.c')], GT, NOTE_GEN)
prop('C23', 'The generated copy traversal makes a complete, independent copy',
     'Copying a node yields a new node of the same type in which every child is the copy of the original\'s child, every string attribute a fresh copy of the string, every other attribute the same value, and the source position the same '
     '(a computed, i.e. inherited or synthesized, attribute is taken over with its evaluated mark or left to be computed again); '
     'the original is not modified and the copy shares no owned memory (children, strings) with it. This holds for every node type, with any combination of children and attributes.',
     ['programs', 'inputs'], 'every specification and every tree',
     'cocogen\'s own copy traversal is never executed by the tests.',
     [BE + 'gen_copy_traversal.c', BE], [('copy emitter', BE + 'gen_copy_traversal.c')], GT, NOTE_GEN)
prop('C24', 'The generated check reports exactly the inconsistent trees',
     'The generated consistency check of a node reports an error, for the current action id, exactly for: a present child whose node type is not one the specification allows for it; and each lifetime of the node, a child or an attribute that is violated '
     '(disallowed: present inside the range; allowed: present outside; mandatory: absent inside; optional: absent outside; a range without begin or end extends to the start or end; square brackets include, parentheses exclude the named action). '
     'All lifetimes of a list count, the check continues to all children, and it does not change the tree.',
     ['programs', 'inputs'], 'every specification, tree and action id',
     'main.ccn has almost no lifetimes, so no test sees what they are compiled to.',
     [BE + 'gen_check_traversal.c', BE], [('check emitter', BE + 'gen_check_traversal.c')], GT, NOTE_GEN)
prop('C25', 'The generated free traversal releases everything exactly once',
     'Freeing a node frees each of its children, each of its string attributes (declared by the node or received from a nodeset; not the computed ones), its data block and the node itself exactly once, nothing is used after it was released, linked nodes and other attributes that the node does not own are not touched, and the result is the absent node.',
     ['programs', 'inputs'], 'every specification and every tree',
     'A leak or double free in generated code for a feature that main.ccn lacks does not show in any test.',
     [BE + 'gen_free_traversal.c', BE], [('free emitter', BE + 'gen_free_traversal.c')], GT, NOTE_GEN)
prop('C26', 'Generated constructors initialise every field of the node',
     'The generated constructor of a node takes exactly the children and attributes marked as constructor arguments, children first and each group in declaration order, with the specified types, and stores each argument in its own field; '
     'every other child is absent, every other attribute has its type\'s default (zero, false, NULL or the enum\'s NULL value), computed attributes are marked as not evaluated, the node has its own type and number of children, the generic child array aliases the named children in order, and the allocated memory is large enough.',
     ['programs'], 'every specification: every attribute type, with and without constructor option, any order',
     'Only the node kinds and attribute types of main.ccn are constructed in the tests.',
     [BE + 'gen_node_constructor.c', BE + 'gen_constructor_call.c', BE + 'gen_node_init_funcs.c'], [('constructor emitters', BE + 'gen_node_constructor.c')], GT, NOTE_GEN)
prop('C27', 'Generated accessors designate the right field of the right node',
     'Every generated accessor NODE_FIELD(n) is an lvalue of the specified C type that designates that field\'s own storage in the node\'s record; no two accessors of a node overlap. (The accessor of an inherited or synthesized attribute yields the stored value instead.) The accessor NODESET_FIELD(n) of a nodeset attribute designates the attribute of the member node n itself. '
     'In debug builds an accessor applied to a node of another type is reported, as is a computed attribute before it is evaluated, and nothing else is.',
     ['programs', 'configurations'], 'every specification, node type and field',
     'Accessor mix-ups for types that main.ccn does not use are not compiled by any test, and no test builds generated code with a wrong node type in debug mode.',
     [BE], [('structs and macros', BE + 'gen_node_structs.c, gen_node_macros.c, gen_node_access_funcs.c, gen_node_access_funcs_error.c')], GT, NOTE_GEN)
prop('C28', 'Generated TRAV<child> functions visit exactly the named child',
     'For every child name, the generated TRAV<child> applied to a node of a type with that child visits exactly that child and stores the visit\'s result in that child; on node types without such a child it does nothing. In all cases it returns the given node.',
     ['programs', 'inputs'], 'every specification and tree',
     'The handful of TRAV<child> functions used by cocogen itself do not exercise children shared under differing cases or node sets.',
     [BE], [('TRAV<child> emitter', BE + 'gen_traversal_functions.c')], GT, NOTE_GEN)
prop('C29', 'User functions are declared, called and stubbed under one name',
     'Every function the user has to write for a traversal (per handled node, init and fini when the traversal has data) or pass is called by the generated code under the same name as it is declared in the headers and defined in the generated user stubs, exactly once each; '
     'an untouched traversal stub continues to the children and returns its node, and an untouched pass stub returns its node.',
     ['programs'], 'every specification: passes with and without uid and own function name, traversals with and without node list and data',
     'Stubs are never compiled by the tests and main.ccn uses one combination only.',
     [BE], [('stub emitters', BE + 'gen_user_traversals.c, gen_user_passes.c'), ('declarations and calls', BE + 'gen_pass_table.c, gen_node_trav_table.c')], GT, NOTE_GEN)
prop('C30', 'The generated action table describes every action as specified',
     'Looking up an action by its id yields the action with that id, its specified name and kind: a traversal or pass action runs that very traversal or pass; a phase has its specified gate function, cycle flag and its sub-actions in source order, terminated, with the root node type. '
     'The built-in check, free and cleanup actions are present, the root action is the start phase and the root type the root node.',
     ['programs'], 'every specification, any nesting and order of phases',
     'The self-build only distinguishes the phases it has; wrong gates, cycle flags or names in other specifications are invisible.',
     ['cocogen/phase_driver/', BE], [('action array emitters', 'cocogen/phase_driver/')], GT, NOTE_GEN)
prop('C31', 'Generated traversal data starts initialised and is released after fini',
     'When a traversal with data starts, its data record is allocated with sufficient size, every field has its type\'s default, the accessor DATA_UID_GET() yields that record with the specified field types, and only then the user\'s init function runs; '
     'when it ends, the user\'s fini function runs first and the record is released exactly once afterwards.',
     ['programs', 'histories'], 'every specification: every data type and any number of fields',
     'main.ccn uses few data types and its behaviour does not depend on defaults.',
     [BE], [('data emitters', BE + 'gen_trav_data_ctors.c, gen_trav_structs.c, gen_trav_data_getters.c')], GT, NOTE_GEN)
prop('C32', 'Generated code is self-consistent C: it compiles and links',
     'For every valid specification, the generated sources, headers and user stubs together with copra and palm compile without errors, in release and debug builds, and every function and table they refer to is defined exactly once.',
     ['programs', 'configurations'], 'every valid specification, including references spelled in another case',
     'The tests compile generated code for main.ccn only; other DSL tests only check the exit status of cocogen.',
     [BE, 'cocogen/phase_driver/'], [('emitters', BE)], 'derivation of the generated program + clang type checking and a link closure over the derived project', NOTE_GEN)

NOTE_FE = ('Static: every handler of the front-end traversals in /repo\'s current source is abstractly interpreted (helpers inlined, loops by their bodies, visits resolved through the traversal tables and the meta AST) into path summaries with symbolic node fields and symbol table lookups; '
           'the rules decide each obligation on all consistent paths. Nothing is executed. Trusted: clang front end, the engine in lib/; tests on values the analysis cannot relate to the specification are treated as possible in both ways. ')
FE = 'cocogen/frontend/'
FT = 'path-sensitive abstract interpretation of the front-end traversals over the traversal tables'
prop('C13', 'Error counts and failure status',
     'Every CTI or CTIobj message of severity error counts as exactly one error, every warning as exactly one warning, and notes and state messages as neither, whatever the other arguments; nothing else changes or resets the counts, and CTIgetErrors and CTIgetWarnings return them. '
     'CTIabortOnError ends the run with a non-zero exit status whenever at least one error was counted and returns whenever none was; CTIabortCompilation, running out of memory, and the handlers of crash and interrupt signals always end the run with a non-zero status.',
     ['inputs', 'histories'], 'every sequence of messages, every severity and argument combination, every path of the message and abort functions',
     'The test suite only sees the exit status of runs with one or two errors; other orders, counts and severities are not tested.',
     ['palm/src/ctinfo.c'], [('message counters', 'CTI, CTIobj, CTIabortOnError, CTIabortCompilation, CTIgetErrors (palm/src/ctinfo.c)')],
     'path-sensitive abstract interpretation of the message and abort functions with counter typestate',
     'Static: all paths of the functions of palm/src/ctinfo.c are abstractly interpreted from an unknown state, per severity; nothing is executed. ')
prop('C14', 'A reported error always stops the compilation',
     'Whenever cocogen reports an error (severity error) about a specification, on every path that follows the run stops with failure or the action or phase is marked as failed before the reporting action ends normally: '
     'no later action works on, and no code is generated from, a specification in which an error was reported.',
     ['inputs', 'histories'], 'every specification, every error report and every path behind it',
     'The failing test specifications cover one path for a few of the more than 60 error reports; an error message followed by exit status 0 needs a path that no test takes.',
     ['cocogen/'], [('error reports', 'CTI / CTIobj with CTI_ERROR in cocogen'), ('stops', 'CTIabortOnError, CTIabortCompilation, CCNerrorAction, CCNerrorPhase')],
     'interprocedural control-flow analysis from every error report to the stopping calls', NOTE_FE)
prop('C15', 'Formats and arguments agree',
     'Every printf-style call of the project (error and note messages, debug output, generated text, string formatting), and every one in the code it generates, passes an argument of the right type for each conversion of its format and no further ones, whatever names and values the specification contains; '
     'the format is fixed text of the program, never text taken from a specification, file name or parser message.',
     ['inputs'], 'every call of a printf-style function in palm, copra, cocogen and the generated code, on every path',
     'The wrappers (CTI, CTIobj, OUT, GNprint, STRfmt, DBUG) are variadic without format attributes, so the compiler checks none of the calls, and most messages are printed only for particular wrong specifications.',
     ['cocogen/', 'palm/src/', 'copra/src/'], [('printf-style wrappers', 'CTI, CTIobj (palm/src/ctinfo.c), GNprint (cocogen/generator/generator.c), STRfmt (palm/src/str.c), DBUG (palm/src/dbug.c)'), ('calls', 'all of palm, copra, cocogen')],
     'typed syntax tree analysis of every call of the printf-style functions (found by following va_list parameters)',
     'Static: the printf-style functions are found in the current source by following format and va_list parameters; every call is checked on clang\'s typed syntax tree, including the calls in the code derived for the specifications of lib/skel.py. Nothing is executed. ')
prop('C16', 'Duplicate names are rejected, distinct names accepted',
     'A specification in which two phases, traversals, passes, nodes, nodesets, enums or their uids share a name is reported as an error, as are two passes with the same function, two enums with the same prefix, two members (children or attributes) of one node, two attributes of one nodeset and two data entries of one traversal with the same name. '
     'Names are compared without regard to case. A name that is new in its name space is accepted and entered, and the members of different nodes, nodesets and traversals do not collide.',
     ['inputs'], 'every specification: any number, order and spelling of names',
     'The failing test specifications contain single examples; which pairs of constructs collide and how scopes are kept apart is not enumerated.',
     [FE + 'buildsymboltable.c', FE + 'check_existance.c', FE + 'symboltable.c'], [('symbol table', FE + 'buildsymboltable.c, symboltable.c'), ('members', FE + 'check_existance.c')], FT, NOTE_FE)
prop('C17', 'References resolve to existing things of the right kind',
     'Every reference in a specification (child type, attribute type, traversal data type, set member, set reference, action of a phase) is looked up among all top level names; a reference that names nothing, or something of a kind that is not allowed there, is reported as an error on every path. '
     'A reference to an allowed existing thing is not reported, and child, attribute and data types are recorded as the kind of what they name (node, nodeset or enum).',
     ['inputs'], 'every specification and every reference in it',
     'Each kind of reference can go wrong in several ways; the test specifications contain a few of the pairs.',
     [FE + 'check_existance.c', FE + 'symboltable.c'], [('existence checks', FE + 'check_existance.c')], FT, NOTE_FE)
prop('C18', 'Semantic checks and analyses reach every element of a specification',
     'Each front-end check and analysis (names, existence, nodeset tables, set expressions, attribute propagation, attribute rules, product rules, lifetime rules, action ids, lifetime targets) works through all elements it is responsible for: '
     'from every element it continues with the next element of the list and with the element\'s lists it has to examine, on every path that reports no error, and visits none of them twice. No check stops at the first element of a list.',
     ['inputs'], 'every specification: any number of elements in every list',
     'A check that skips elements under some condition accepts bad specifications; the failing test specifications have the offending element first or alone.',
     [FE, 'cocogen/sets/'], [('list traversal', 'TRAVnext / TRAVchildren in the handlers of BST, CEX, NCT, USE, PRA, CHA, CPR, CLT, AITA, MITL, CSM')], FT, NOTE_FE)
prop('C20', 'Set expressions denote the sets they describe',
     'The set of a nodeset or of the nodes of a traversal contains exactly the nodes its expression describes: the names of a literal, everything in either operand of `|`, in both operands of `&`, in the left but not the right operand of `-`, and for the name of a nodeset what that nodeset contains, however deeply expressions and references are nested and in whatever order nodesets are declared. '
     'Names are compared without regard to case, no node is contained twice, and empty sets may occur as operands and results. '
     'Evaluating an expression does not change the sets of other nodesets it refers to, and shares no elements with them.',
     ['inputs'], 'every specification: any expression, any number and order of names',
     'The tests evaluate a handful of small expressions and only look at the exit status; sets are unbalanced search trees whose shape depends on the order of insertion.',
     ['cocogen/sets/', FE + 'unwrap_setexpr.c'], [('set operations', 'cocogen/sets/'), ('evaluation', FE + 'unwrap_setexpr.c')],
     'path-sensitive abstract interpretation: handlers are summarised as filters, operations evaluated to membership tables; inductive step of the search tree for every order and shape',
     NOTE_FE)
prop('C21', 'Lifetime ranges denote the actions they name',
     'The actions of the phase tree are numbered in tree order as at run time (a phase before its nested actions, these before the next action; the first action of the start phase is 2). A lifetime target names the first action in tree order that references a phase, traversal or pass with that name or uid, in any case of letters; '
     'a dotted target is resolved part by part, each further part among the actions of the phase found so far. A range end gets the number of its action and the number that follows it: for a phase the one after its last nested action, at any depth. A target that names no action is reported as an error.',
     ['inputs'], 'every specification: any phase tree, any target, any number of lifetimes',
     'main.ccn has hardly any lifetimes and none on nested phases; the lifetimes in the other test specifications are only parsed.',
     [FE + 'lifetimes/'], [('action numbers', FE + 'lifetimes/assign_id_to_actions.c'), ('targets', FE + 'lifetimes/map_id_to_lifetimes.c')], FT, NOTE_FE)
prop('C36', 'Traversals get to every node they handle',
     'In the node table of a traversal with a list of nodes, every listed node type is handled by the user\'s function, and every other node type from which a listed one can be reached through children (through any number of node types and through every member of nodesets) continues to its children; '
     'only node types without a listed type below them are skipped. A traversal without a list handles all node types. This does not depend on the order of declarations, on other traversals, or on cycles among the node types.',
     ['programs'], 'every specification: any graph of node types and nodesets, any node lists',
     'A search that stops too early skips nodes silently: generated code compiles and runs. main.ccn contains few traversals whose nodes lie behind several levels or nodesets, and the other test specifications are only compiled.',
     [FE + 'reachability.c', 'cocogen/dynamic_backend/gen_node_trav_table.c'], [('reachability search', FE + 'reachability.c')],
     'path-sensitive abstract interpretation of the reachability traversal: obligations on every path of each handler (inductive step of the search)',
     NOTE_FE + 'That the rows end up in the generated table is decided by C22. ')
prop('C37', 'Equations of attributes exist, fit and are complete',
     'An equation is reported as an error unless it defines a synthesized attribute of the node itself (`this.a`) or an inherited attribute of one of its children (`child.a`, the child being a node or nodeset); a rule or dependency that names a child or attribute that does not exist is reported as well. '
     'A synthesized attribute of a node, and an inherited attribute of the type of one of its children, that has no equation in the node is reported; equations that satisfy these rules are not reported. '
     'Names are compared without regard to case, and every reference is linked to the child and attribute it names in the node it refers to, independent of what was looked up before.',
     ['inputs'], 'every specification: any number of nodes, children, attributes and equations, in any order',
     'The failing specifications of the tests have one equation each; results of searches are cached across nodes, so that a wrong key only shows with several nodes that share names.',
     [FE + 'check_product_rules.c'], [('product rules', FE + 'check_product_rules.c')],
     'path-sensitive abstract interpretation: search loops are summarised by one generic iteration; every path is judged by what its searches establish',
     NOTE_FE + 'Two equations for the same attribute are not reported by the code and not part of the property. ')
prop('C38', 'Members of a nodeset get its attributes, once',
     'Every attribute declared in a nodeset is added, as a copy of its own, to every node of the nodeset and to every nodeset it is built from, directly or through other nodesets (each of these exactly once, also when it is named several times); attributes a nodeset inherited are not handed on a second time. '
     'A redeclaration (a name that differs only in case is the same) is reported, unless it is made in a node, repeats a plain attribute with the same type and has the constructor keyword: then the node keeps its own declaration. '
     'A child with the name of such an attribute, and a nodeset that is built from itself, are reported as errors.',
     ['inputs'], 'every specification: any number of nodesets, nesting, attributes and redeclarations',
     'The passing test with nodeset attributes is only compiled, not compared; a lost or doubled attribute, or a nodeset reached in a different order, changes generated structures silently.',
     [FE + 'nodesets/nodeset_child_table.c', FE + 'nodesets/propagate_attributes.c'], [('nodeset table', FE + 'nodesets/nodeset_child_table.c'), ('propagation', FE + 'nodesets/propagate_attributes.c')],
     'path-sensitive abstract interpretation: loops as generic iterations; every combination of declaration, redeclaration and flags is judged on all paths consistent with it',
     NOTE_FE + 'Lifetimes of redeclared attributes are not compared by the code and not part of the property. ')
prop('C39', 'Attribute evaluation is scheduled after what it depends on; loops are errors',
     'Every equation makes the attribute it defines depend on each inherited or synthesized attribute it uses, in a node, its children and the nodesets it belongs to, also through the equations of other nodes. '
     'An attribute that (directly or indirectly) depends on itself is reported as an error, and then no visits are generated. '
     'In the order that is generated for a visit an attribute is evaluated only after everything it depends on was evaluated or comes out of an earlier child visit, and a child is visited only after its previous visits and after the inputs of that visit are available.',
     ['inputs'], 'every specification with attribute grammars: any number of nodes, nodesets, children, attributes, equations and any shape of dependencies',
     'The tests compile a few attribute specifications and never look at the order that comes out; main.ccn has no equations, so that the self-build schedules nothing.',
     [AG + 'graph.c', AG + 'schedule_attribute_visits.c', AG + 'generate_visits.c'],
     [('dependency graph', AG + 'graph.c, generate_graph_node, generate_graph_nodeset'), ('order', 'generate_visit in ' + AG + 'generate_visits.c')],
     'path-sensitive abstract interpretation: path summaries of the graph functions and of one turn of the scheduling queue are judged in small symbolic case worlds (loops as generic iterations)',
     NOTE_FE + 'How attributes are divided over visits is not part of it (C40). ')
prop('C40', 'Every attribute belongs to one visit and every visit is made',
     'Each inherited (synthesized) attribute of a node or nodeset is an input (output) of exactly one of its visits, not of an earlier one than an attribute of the type it depends on, and an input that depends on an output comes in a later visit; a type without attributes gets an empty visit when a child (for a nodeset: a member) of it, also further down, has visits. '
     'The visits generated for a node are numbered from one and listed in that order with exactly their inputs and outputs, each of them computes all its outputs, and by the end of the last one every visit of every child was made. '
     'A place where a child is visited is linked to that visit of its type; for a nodeset each member has an entry, with its own visit of that number or one that does nothing, and the first entry is a visit.',
     ['inputs'], 'every specification with attribute grammars: any number of types, members, attributes, visits and any dependencies between attributes of a type',
     'The tests only compile the generated code of a few attribute specifications; a lost alternative, output or child visit leaves code that compiles and computes too little.',
     [AG + 'partition_nodes.c', AG + 'collect_visits.c', AG + 'generate_visits.c', AG + 'fill_visit_stubs.c', AG + 'schedule_attribute_visits.c'],
     [('partition', AG + 'partition_nodes.c, collect_visits.c'), ('visits', 'generate_visits in ' + AG + 'generate_visits.c'), ('links', AG + 'fill_visit_stubs.c')],
     'path-sensitive abstract interpretation: path summaries judged in small symbolic case worlds; partition and collection are composed, so that only the visits that come out matter',
     NOTE_FE + 'The order inside a visit is C39. That the numbers of a nodeset and its members agree in what they compute is not decided. ')
prop('C41', 'Generated attribute evaluation carries out the visits',
     'For the visits a node was given: the generated visit first keeps its inputs in the node, then makes its evaluations and child visits in the given order, calling for an equation the evaluation function for exactly the optional children that are absent with the current values of the attributes it depends on, and keeping every result (of a rule for a child: in the child), marked as set, before the next step; it returns the values computed for its outputs. '
     'An optional child is visited only when present, a child of a nodeset with the visit of the type it has (with none where its type needs none), and a child visit is passed the values of its inputs kept in the child. '
     'CCNevaluateAttributes makes all visits of a node without inherited attributes in order, and all of this compiles, also when two children have one type.',
     ['programs', 'inputs'], 'every specification with scheduled visits and every tree: any number of inputs and outputs, attribute types, mandatory, optional and nodeset children, equations over any subset of optional children',
     'The tests generate code for a few attribute specifications but never run the visits on trees with absent children or other members of a nodeset.',
     [BE + 'gen_visit_source.c', BE + 'gen_visit_header.c', BE + 'gen_ag_source.c', BE + 'collect_children.c'],
     [('visit emitter', BE + 'gen_visit_source.c, gen_visit_header.c'), ('entry emitter', BE + 'gen_ag_source.c')], GT,
     NOTE_GEN + 'The specification analysed is a symbolic one with schedules laid down by hand (skel.visits); that real schedules are right is C39 and C40. ')
prop('C42', 'There is an evaluation function for every set of absent children',
     'For every equation and every subset of the optional children it reads, the generated headers declare one evaluation function, which takes exactly the attributes of the node and of the children that are present, in the order of the dependencies, and returns the rule\'s attribute, all with the C types of these attributes (nodes, enums and user types included). '
     'The generated user files contain a stub for each of these functions and for no other, and headers and stubs compile.',
     ['programs'], 'every specification with equations: any attribute types, any number of dependencies, of optional children among them and of attributes read of one child',
     'The tests never compile stubs for equations over optional children or node-typed attributes.',
     [BE + 'gen_equation_functions.c', BE + 'gen_user_equations.c', BE + 'gen_equation_includes.c', BE + 'collect_children.c'],
     [('declarations', BE + 'gen_equation_functions.c'), ('stubs', BE + 'gen_user_equations.c')], GT,
     NOTE_GEN + 'That a stub for a user type returns no value is left to the user, who has to write it. ')
prop('C19', 'The parser keeps every part of a declaration',
     'The documented syntax is accepted in every combination of its optional parts, and the tree built for a declaration contains each of its parts (name, info text, uid, gate and target functions, actions, nodes, children, attributes, equations, lifetimes, options, types, values) where that part belongs, and nothing that was not written. '
     'Lists keep all their elements in source order, and every declaration (also one written inside a list of actions) is added to the declarations of its kind without losing others. '
     'Nodes and traversals are numbered consecutively from zero and the tree records how many there are.',
     ['inputs'], 'every specification: every grammar alternative, every combination of optional parts, lists of any length, expressions of any nesting',
     'The tests parse a few dozen specifications and mostly only look at the exit status; combinations such as info with traversal data but no nodes never occur.',
     ['cocogen/frontend/scanAndParse/dsl-parser.y', 'cocogen/frontend/scanAndParse/dsl-lexer.l'], [('grammar actions', 'cocogen/frontend/scanAndParse/dsl-parser.y'), ('keywords', 'cocogen/frontend/scanAndParse/dsl-lexer.l')],
     'effect summaries of grammar actions (abstract interpretation) composed along the derivations of the grammar; scanner rule analysis',
     'Recursive nonterminals are cut and treated inductively, so lists of any length are covered. Trusted: bison/flex, the clang front end, the rule engine in lib/; the parsing automaton itself is assumed to follow the grammar (it has no conflicts that hide an alternative). ')
prop('C34', 'Nodes are accessed as the kind they are',
     'In every handler and helper of cocogen\'s own traversals, a field of a node is only read or written through the accessor of the kind that node has: no node is accessed through the accessors of another kind (which would read or overwrite memory of a different structure), whatever kinds of nodes a list, set member, action or reference holds, '
     'and what is put into a child slot is of the kind the slot is declared with.',
     ['inputs'], 'every specification; every path of every handler, on every kind of node it can meet',
     'The accessors are unchecked casts: a wrong one compiles, and mostly reads a plausible pointer of a different field; tests only notice when the layouts happen to differ in the path they take.',
     ['cocogen/frontend/', 'cocogen/generator/', 'cocogen/sets/'], [('node accessors', 'INODE_*, INODESET_*, ... in the handlers of cocogen/frontend, cocogen/generator, cocogen/sets')],
     'path-sensitive kind inference for every node access over the traversal tables and the declared child and attribute types',
     NOTE_FE + 'Accesses on values whose kind is only known at run time (symbol table results before a test of their kind) are listed in the evidence as undecided. ')
prop('C35', 'Illegal declarations are rejected, legal ones accepted',
     'Reported as an error: inherited attributes of the root node; nodeset attributes in the constructor; attributes of a nodeset built with intersection or difference; inherited or synthesized attributes in the constructor or with lifetimes; lifetimes of attributes that are neither nodes nor strings; mandatory or optional lifetimes of a node; '
     'a second root node or start phase, and the absence of one; a node called node (in any case); uids and enum prefixes that collide with generated names (TRAV, PASS, CCN, ...). The same declarations without the offending combination are accepted, and the first root node and start phase are the ones recorded.',
     ['inputs'], 'every specification: every element of every list, any combination of options',
     'Single failing specifications exist for some of the rules; that a rule applies to every element, not just the first, is not tested.',
     [FE + 'check_attributes.c', FE + 'check_existance.c', FE + 'lifetimes/', 'cocogen/sets/'], [('attribute rules', FE + 'check_attributes.c'), ('lifetime rules', FE + 'lifetimes/check_lifetimes.c, map_id_to_lifetimes.c'), ('root, start, reserved names', FE + 'check_existance.c')], FT, NOTE_FE)
