DC = 'copra/src/dynamic_core.c'
PD = 'copra/src/phase_driver.c'
MUTANTS = [
 # --- dynamic core: bugs
 ('dc-push-noprev', ['C01'], [(DC, 'trav->prev = current_traversal;\n    current_traversal = trav;', 'current_traversal = trav;\n    trav->prev = current_traversal;')]),
 ('dc-pop-freefirst', ['C01'], [(DC, '    free_func(current_traversal);\n\n    MEMfree(current_traversal);', '    MEMfree(current_traversal);\n    free_func(current_traversal);')]),
 ('dc-pop-notrestored', ['C01'], [(DC, 'current_traversal = prev;\n}', 'current_traversal = prev == NULL ? current_traversal : prev;\n}')]),
 ('dc-start-nopop-null', ['C01'], [(DC, '    TRAVpush(trav_type);\n    syntaxtree = TRAVopt(syntaxtree);\n', '    TRAVpush(trav_type);\n    if (syntaxtree == NULL) return syntaxtree;\n    syntaxtree = TRAVopt(syntaxtree);\n')]),
 ('dc-pop-outer-fin', ['C01'], [(DC, 'ccn_trav_data_ft free_func = trav_data_free_vtable[current_traversal->trav_type];', 'ccn_trav_data_ft free_func = trav_data_free_vtable[prev ? prev->trav_type : current_traversal->trav_type];')]),
 ('dc-push-init-skip-nested', ['C01'], [(DC, '    init_func(trav);', '    if (trav->prev == NULL || trav->prev->trav_type != trav_type) init_func(trav);')]),
 ('dc-children-reverse', ['C02'], [(DC, 'for (int i = 0; i < NODE_NUMCHILDREN(arg_node); i++)', 'for (int i = NODE_NUMCHILDREN(arg_node) - 1; i >= 0; i--)')]),
 ('dc-children-skip-last', ['C02'], [(DC, 'i < NODE_NUMCHILDREN(arg_node); i++', 'i + 1 < NODE_NUMCHILDREN(arg_node) || i == 0; i++')]),
 ('dc-children-drop-null-result', ['C02'], [(DC, '        NODE_CHILDREN(arg_node)[i] = TRAVopt(NODE_CHILDREN(arg_node)[i]);', '        struct ccn_node *r = TRAVopt(NODE_CHILDREN(arg_node)[i]);\n        if (r) NODE_CHILDREN(arg_node)[i] = r;')]),
 ('dc-do-twice', ['C02'], [(DC, '    return trav_func(arg_node);', '    if (current_traversal->prev) arg_node = trav_func(arg_node);\n    return trav_func(arg_node);')]),
 ('dc-opt-result', ['C02'], [(DC, '        return TRAVdo(arg_node);', '        TRAVdo(arg_node);')]),
 ('dc-error-return', ['C02'], [(DC, '    fprintf(stderr, "Traversing trough unkown node, is the node corrupted?");\n    abort();', '    fprintf(stderr, "Traversing trough unkown node, is the node corrupted?");')]),
 ('dc-copy-free', ['C02'], [(DC, 'TRAVstart(arg_node, TRAV_cpy)', 'TRAVstart(arg_node->nodetype ? arg_node : arg_node, TRAV_check)')]),
 ('dc-do-outer', ['C02'], [(DC, 'ccn_trav_vtable[current_traversal->trav_type][NODE_TYPE(arg_node)]', 'ccn_trav_vtable[(current_traversal->prev ? current_traversal->prev : current_traversal)->trav_type][NODE_TYPE(arg_node)]')]),
 # --- dynamic core: neutral
 ('n-dc-children-while', [], [(DC, '    for (int i = 0; i < NODE_NUMCHILDREN(arg_node); i++) {\n        NODE_CHILDREN(arg_node)[i] = TRAVopt(NODE_CHILDREN(arg_node)[i]);\n    }', '    int i = 0;\n    while (i < NODE_NUMCHILDREN(arg_node)) {\n        node_st *child = NODE_CHILDREN(arg_node)[i];\n        NODE_CHILDREN(arg_node)[i] = TRAVopt(child);\n        i += 1;\n    }')]),
 ('n-dc-children-nullcheck', [], [(DC, '        NODE_CHILDREN(arg_node)[i] = TRAVopt(NODE_CHILDREN(arg_node)[i]);', '        if (NODE_CHILDREN(arg_node)[i] == NULL) { continue; }\n        NODE_CHILDREN(arg_node)[i] = TRAVdo(NODE_CHILDREN(arg_node)[i]);')]),
 ('n-dc-children-ptr', [], [(DC, '    for (int i = 0; i < NODE_NUMCHILDREN(arg_node); i++) {\n        NODE_CHILDREN(arg_node)[i] = TRAVopt(NODE_CHILDREN(arg_node)[i]);\n    }', '    node_st **children = NODE_CHILDREN(arg_node);\n    long total = NODE_NUMCHILDREN(arg_node);\n    for (long idx = 0; idx != total; ++idx) {\n        children[idx] = TRAVopt(children[idx]);\n    }')]),
 ('n-dc-push-helper', [], [(DC, 'void TRAVpush(', 'static ccn_trav_st *mk(enum ccn_traversal_type t, ccn_trav_st *outer) { ccn_trav_st *trav = MEMmalloc(sizeof(ccn_trav_st)); trav->prev = outer; trav->trav_type = t; return trav; }\nvoid TRAVpush('), (DC, '    ccn_trav_st *trav = MEMmalloc(sizeof(ccn_trav_st));\n    trav->trav_type = trav_type;\n    trav->prev = current_traversal;\n    current_traversal = trav;\n', '    ccn_trav_st *trav = mk(trav_type, current_traversal);\n    current_traversal = trav;\n')]),
 ('n-dc-pop-reorder', [], [(DC, '    free_func(current_traversal);\n\n    MEMfree(current_traversal);\n    current_traversal = prev;', '    ccn_trav_st *old = current_traversal;\n    free_func(old);\n    current_traversal = prev;\n    MEMfree(old);')]),
 ('n-dc-opt-inv', [], [(DC, '    if (arg_node != NULL) {\n        return TRAVdo(arg_node);\n    }\n    return arg_node;', '    if (!arg_node) {\n        return NULL;\n    }\n    return TRAVdo(arg_node);')]),
 ('n-dc-opt-tern', [], [(DC, '    if (arg_node != NULL) {\n        return TRAVdo(arg_node);\n    }\n    return arg_node;', '    return arg_node ? TRAVdo(arg_node) : NULL;')]),
 ('n-dc-rename-global', [], [(DC, 'static ccn_trav_st *current_traversal;', 'static ccn_trav_st *trav_top;\n#define current_traversal trav_top')]),
 ('n-dc-error-puts', [], [(DC, '    fprintf(stderr, "Traversing trough unkown node, is the node corrupted?");', '    fputs("Traversing trough unkown node, is the node corrupted?", stderr);')]),
 ('n-dc-noop', [], [(DC, '    ccn_trav_st *trav = MEMmalloc(sizeof(ccn_trav_st));', '    ;(void)0; int unused = 0; (void)unused;\n    ccn_trav_st *trav = MEMmalloc(sizeof(ccn_trav_st));')]),
 # --- phase driver: bugs
 ('pd-check-after', ['C03'], [(PD, '    if (phase_driver.tree_check) {\n        int curr_err', '    if (phase_driver.tree_check && action->type != CCN_ACTION_PASS) {\n        int curr_err')]),
 ('pd-check-noabort', ['C03'], [(PD, '        if (CTIgetErrors() != curr_err) {', '        if (CTIgetErrors() != curr_err && phase_driver.level <= 1) {')]),
 ('pd-check-errafter', ['C03'], [(PD, '        int curr_err = CTIgetErrors();\n        node = TRAVstart(node, TRAV_check);\n', '        node = TRAVstart(node, TRAV_check);\n        int curr_err = CTIgetErrors();\n')]),
 ('pd-check-discard', ['C03'], [(PD, '        if (CTIgetErrors() != curr_err) {', '        if (CTIgetErrors() < curr_err) {')]),
 ('pd-aerr-phaseonly', ['C04'], [(PD, '    if (phase_driver.action_error) {', '    if (phase_driver.action_error && phase_driver.cycle_iter == 0) {')]),
 ('pd-aerr-pass', ['C04'], [(PD, '    if (phase_driver.action_error) {', '    if (phase_driver.action_error && action->type != CCN_ACTION_TRAVERSAL) {')]),
 ('pd-perr-noabort', ['C04'], [(PD, '            fprintf(stderr, "[coconut] Phase error received. Stopping...\\n");\n        }\n        CTIabortCompilation();', '            fprintf(stderr, "[coconut] Phase error received. Stopping...\\n");\n        }\n        if (!cycle) CTIabortCompilation();')]),
 ('pd-perr-lost', ['C04'], [(PD, 'phase_driver.phase_error = phase_error || phase_driver.phase_error;', '(void)phase_error;')]),
 ('pd-perr-nosave', ['C04'], [(PD, '        phase_driver.phase_error = false;\n        node = StartPhase', '        node = StartPhase')]),
 ('pd-perr-midphase', ['C04'], [(PD, 'phase_driver.phase_error = phase_error || phase_driver.phase_error;', 'phase_driver.phase_error = phase_error && phase_driver.level > 1;')]),
 ('pd-cycle-or', ['C05'], [(PD, 'phase_driver.cycle_iter < phase_driver.max_cycles && !(phase_driver.fixed_point)', '(phase_driver.cycle_iter < phase_driver.max_cycles || phase_driver.max_cycles == 0) && !(phase_driver.fixed_point)')]),
 ('pd-cycle-le', ['C05'], [(PD, 'phase_driver.cycle_iter < phase_driver.max_cycles', 'phase_driver.cycle_iter <= phase_driver.max_cycles')]),
 ('pd-cycle-fp-once', ['C05'], [(PD, '    do {\n        // If we cycle around, reset the action id.\n        if (cycle) {\n            phase_driver.fixed_point = true;\n        }\n', '    if (cycle) phase_driver.fixed_point = true;\n    do {\n')]),
 ('pd-cycle-restore-phase', ['C05'], [(PD, '    if (cycle) {\n        phase_driver.fixed_point = prev_fixed_point;\n    }\n', '    phase_driver.fixed_point = prev_fixed_point;\n')]),
 ('pd-cycle-norestore', ['C05'], [(PD, '    phase_driver.cycle_iter = prev_cycle_iter;\n', '')]),
 ('pd-cycle-iter-not-reset', ['C05'], [(PD, '    phase_driver.cycle_iter = 0;\n\n    do', '\n    do')]),
 ('pd-ids-noreset', ['C06'], [(PD, '        phase_driver.action_id = curr_action_id;\n', '        if (!cycle) phase_driver.action_id = curr_action_id;\n')]),
 ('pd-ids-skip', ['C06'], [(PD, '            if (action->type == CCN_ACTION_PHASE) {\n                SkipPhase(&(action->phase));\n            }', '            if (action->type == CCN_ACTION_PHASE && !action->phase.gate_func) {\n                SkipPhase(&(action->phase));\n            }')]),
 ('pd-skip-count', ['C06'], [(PD, '    while (action_id != CCNAC_ID_NULL) {\n        phase_driver.action_id++;\n        {\n            struct ccn_action *action = CCNgetActionFromID(action_id);\n            if (action->type == CCN_ACTION_PHASE) {', '    while (action_id != CCNAC_ID_NULL) {\n        {\n            struct ccn_action *action = CCNgetActionFromID(action_id);\n            if (action->type != CCN_ACTION_PHASE) phase_driver.action_id++;\n            if (action->type == CCN_ACTION_PHASE) {')]),
 ('pd-gate-inv', ['C06'], [(PD, 'if (phase->gate_func && !phase->gate_func()) {', 'if (phase->gate_func && !phase->gate_func() && phase_driver.level < 2) {')]),
 ('pd-gate-noskip', ['C06'], [(PD, '        SkipPhase(phase);\n', '        if (!phase->is_cycle) SkipPhase(phase);\n')]),
 ('pd-show', ['C06'], [(PD, '    indent++;\n    while (phase->action_table[index]', '    indent++;\n    if (phase->is_cycle) id++;\n    while (phase->action_table[index]')]),
 ('pd-break-id', ['C07'], [(PD, 'phase_driver.breakpoint_id == start_id', 'phase_driver.breakpoint_id == phase_driver.action_id')]),
 ('pd-break-before', ['C07'], [(PD, 'BreakpointHandler(node);\n            exit(0);', 'BreakpointHandler(node);\n            if (action->type != CCN_ACTION_PHASE) exit(0);')]),
 ('pd-break-norestore', ['C07'], [(PD, '    if (old_break != NULL) {\n        phase_driver.breakpoint = old_break;\n    }', '    if (old_break != NULL && !cycle) {\n        phase_driver.breakpoint = old_break;\n    }')]),
 ('pd-run-noreset', ['C08'], [(PD, '    phase_driver.action_id = 0;\n    phase_driver.cycle_iter = 0;\n', '    phase_driver.cycle_iter = 0;\n')]),
 ('pd-run-nofree', ['C08'], [(PD, '    TRAVstart(node, TRAV_free);', '    if (!phase_driver.fixed_point) TRAVstart(node, TRAV_free);')]),
 ('pd-run-oldtree', ['C08'], [(PD, '    node = CCNdispatchAction(CCNgetActionFromID(CCN_ROOT_ACTION), CCN_ROOT_TYPE, node, false);\n    TRAVstart(node, TRAV_free);', '    node_st *res = CCNdispatchAction(CCNgetActionFromID(CCN_ROOT_ACTION), CCN_ROOT_TYPE, node, false);\n    TRAVstart(res == NULL ? node : node, TRAV_free);')]),
 ('pd-act-skipfirst', ['C09'], [(PD, '        size_t action_counter = 0;\n        enum ccn_action_id action_id = phase->action_table[action_counter];\n        while (action_id != CCNAC_ID_NULL) {\n            struct', '        size_t action_counter = phase_driver.cycle_iter > 1 ? 1 : 0;\n        enum ccn_action_id action_id = phase->action_table[action_counter];\n        while (action_id != CCNAC_ID_NULL) {\n            struct')]),
 ('pd-act-dropresult', ['C09'], [(PD, '        node = PASSstart(node, action->pass.pass_type);', '        PASSstart(node, action->pass.pass_type);')]),
 ('pd-act-fall', ['C09'], [(PD, '        node = PASSstart(node, action->pass.pass_type);\n        break;', '        node = PASSstart(node, action->pass.pass_type);\n        if (phase_driver.cycle_iter == 0) break;')]),
 ('pd-act-stop-early', ['C09'], [(PD, '            action_counter++;\n            action_id = phase->action_table[action_counter];\n        }\n        phase_driver.cycle_iter++;', '            action_counter++;\n            action_id = phase->action_table[action_counter];\n            if (cycle && phase_driver.fixed_point && phase_driver.cycle_iter > 0) break;\n        }\n        phase_driver.cycle_iter++;')]),
 # --- phase driver: neutral
 ('n-pd-switch-if', [], [(PD, '''    switch (action->type) {
    case CCN_ACTION_PASS:
        node = PASSstart(node, action->pass.pass_type);
        break;
    case CCN_ACTION_TRAVERSAL:
        node = TRAVstart(node, action->traversal.trav_type);
        break;
    case CCN_ACTION_PHASE:
        phase_error = phase_driver.phase_error;
        phase_driver.phase_error = false;
        node = StartPhase(&(action->phase), action->name, node);
        phase_driver.phase_error = phase_error || phase_driver.phase_error;
        break;
    case CCN_ACTION_NULL:
        err(EXIT_FAILURE, "[coconut] error in phase driver.");
    }''', '''    if (action->type == CCN_ACTION_NULL) {
        err(EXIT_FAILURE, "[coconut] error in phase driver.");
    } else if (action->type == CCN_ACTION_PHASE) {
        phase_error = phase_driver.phase_error;
        phase_driver.phase_error = false;
        node = StartPhase(&(action->phase), action->name, node);
        if (phase_error) phase_driver.phase_error = true;
    } else if (action->type == CCN_ACTION_TRAVERSAL) {
        node = TRAVstart(node, action->traversal.trav_type);
    } else {
        node = PASSstart(node, action->pass.pass_type);
    }''')]),
 ('n-pd-helper-check', [], [(PD, 'struct ccn_node *CCNdispatchAction(', '''static struct ccn_node *CheckTree(struct ccn_node *node)
{
    if (!phase_driver.tree_check) {
        return node;
    }
    int before = CTIgetErrors();
    struct ccn_node *res = TRAVstart(node, TRAV_check);
    if (CTIgetErrors() > before) {
        CTIabortOnError();
    }
    return res;
}

struct ccn_node *CCNdispatchAction('''), (PD, '''    if (phase_driver.tree_check) {
        int curr_err = CTIgetErrors();
        node = TRAVstart(node, TRAV_check);
        if (CTIgetErrors() != curr_err) {
            CTIabortOnError();
        }
    }
''', '    node = CheckTree(node);\n')]),
 ('n-pd-for-actions', [], [(PD, '''        size_t action_counter = 0;
        enum ccn_action_id action_id = phase->action_table[action_counter];
        while (action_id != CCNAC_ID_NULL) {
            struct ccn_action *action = CCNgetActionFromID(action_id);
            node = CCNdispatchAction(action, phase->root_type, node, false);
            action_counter++;
            action_id = phase->action_table[action_counter];
        }
''', '''        for (size_t i = 0; phase->action_table[i] != CCNAC_ID_NULL; ++i) {
            node = CCNdispatchAction(CCNgetActionFromID(phase->action_table[i]), phase->root_type, node, false);
        }
''')]),
 ('n-pd-skip-for', [], [(PD, '''    size_t action_counter = 0;
    enum ccn_action_id action_id = phase->action_table[action_counter];
    while (action_id != CCNAC_ID_NULL) {
        phase_driver.action_id++;
        {
            struct ccn_action *action = CCNgetActionFromID(action_id);
            if (action->type == CCN_ACTION_PHASE) {
                SkipPhase(&(action->phase));
            }
        }
        action_counter++;
        action_id = phase->action_table[action_counter];
    }
''', '''    for (size_t i = 0; phase->action_table[i] != CCNAC_ID_NULL; i++) {
        struct ccn_action *action = CCNgetActionFromID(phase->action_table[i]);
        ++phase_driver.action_id;
        if (action->type != CCN_ACTION_PHASE) {
            continue;
        }
        SkipPhase(&(action->phase));
    }
''')]),
 ('n-pd-iterate-helper', [], [(PD, 'struct ccn_node *StartPhase(struct ccn_phase *phase, char *phase_name, struct ccn_node *node) {\n', '''static struct ccn_node *RunActions(struct ccn_phase *phase, struct ccn_node *node)
{
    size_t action_counter = 0;
    enum ccn_action_id action_id = phase->action_table[action_counter];
    while (action_id != CCNAC_ID_NULL) {
        struct ccn_action *action = CCNgetActionFromID(action_id);
        node = CCNdispatchAction(action, phase->root_type, node, false);
        action_counter++;
        action_id = phase->action_table[action_counter];
    }
    return node;
}

struct ccn_node *StartPhase(struct ccn_phase *phase, char *phase_name, struct ccn_node *node) {
'''), (PD, '''        size_t action_counter = 0;
        enum ccn_action_id action_id = phase->action_table[action_counter];
        while (action_id != CCNAC_ID_NULL) {
            struct ccn_action *action = CCNgetActionFromID(action_id);
            node = CCNdispatchAction(action, phase->root_type, node, false);
            action_counter++;
            action_id = phase->action_table[action_counter];
        }
        phase_driver.cycle_iter++;''', '''        node = RunActions(phase, node);
        phase_driver.cycle_iter++;''')]),
 ('n-pd-loop-form', [], [(PD, '    do {\n        // If we cycle around', '    while (true) {\n        // If we cycle around'), (PD, '    } while(cycle && phase_driver.cycle_iter < phase_driver.max_cycles && !(phase_driver.fixed_point));', '        if (!cycle || phase_driver.cycle_iter >= phase_driver.max_cycles || phase_driver.fixed_point) {\n            break;\n        }\n    }')]),
 ('n-pd-break-helper', [], [(PD, 'struct ccn_node *CCNdispatchAction(', '''static void StopAtBreakpoint(struct ccn_action *action, size_t id, struct ccn_node *node)
{
    bool hit = phase_driver.breakpoint != NULL && STReqci(phase_driver.breakpoint, action->name);
    hit = hit || (phase_driver.breakpoint_id != 0 && phase_driver.breakpoint_id == id);
    if (hit) {
        BreakpointHandler(node);
        exit(0);
    }
}

struct ccn_node *CCNdispatchAction('''), (PD, '''    if (phase_driver.breakpoint) {
        if (STReqci(phase_driver.breakpoint, action->name)) {
            BreakpointHandler(node);
            exit(0);
        }
    }
    if (phase_driver.breakpoint_id > 0 && phase_driver.breakpoint_id == start_id) {
        BreakpointHandler(node);
        exit(0);
    }
''', '    StopAtBreakpoint(action, start_id, node);\n')]),
 ('n-pd-start-reorder', [], [(PD, '''    struct ccn_phase *prev = phase_driver.current_phase;
    phase_driver.current_phase = phase;
    phase_driver.level++;
    bool cycle = phase->is_cycle;
    uint64_t curr_action_id = phase_driver.action_id;
''', '''    uint64_t curr_action_id = phase_driver.action_id;
    bool cycle = phase->is_cycle;
    struct ccn_phase *prev = phase_driver.current_phase;
    phase_driver.level += 1;
    phase_driver.current_phase = phase;
''')]),
 ('n-pd-gate-split', [], [(PD, '    if (phase->gate_func && !phase->gate_func()) {', '    bool open = true;\n    if (phase->gate_func != NULL) {\n        open = phase->gate_func();\n    }\n    if (!open) {')]),
 ('n-pd-run-inline', [], [(PD, '    node = CCNdispatchAction(CCNgetActionFromID(CCN_ROOT_ACTION), CCN_ROOT_TYPE, node, false);\n    TRAVstart(node, TRAV_free);', '    struct ccn_action *root = CCNgetActionFromID(CCN_ROOT_ACTION);\n    struct ccn_node *result = CCNdispatchAction(root, CCN_ROOT_TYPE, node, false);\n    CCNfree(result);')]),
 ('n-pd-show-for', [], [(PD, '''    size_t index = 0;
    struct ccn_phase *phase = &curr->phase;
    indent++;
    while (phase->action_table[index] != CCNAC_ID_NULL) {
        id = ShowTree(CCNgetActionFromID(phase->action_table[index]), id, indent);
        index++;
    }
    printf("\\n");
    indent--;
    return id;''', '''    for (size_t index = 0; curr->phase.action_table[index] != CCNAC_ID_NULL; index++) {
        id = ShowTree(CCNgetActionFromID(curr->phase.action_table[index]), id, indent + 1);
    }
    printf("\\n");
    return id;''')]),
 ('n-pd-local-state', [], [(PD, '    bool cycle = phase->is_cycle;\n', ''), (PD, '        if (cycle) {\n            phase_driver.fixed_point = true;\n        }', '        if (phase->is_cycle) {\n            phase_driver.fixed_point = true;\n        }'), (PD, 'while(cycle &&', 'while(phase->is_cycle &&'), (PD, '    if (cycle) {\n        phase_driver.fixed_point = prev', '    if (phase->is_cycle) {\n        phase_driver.fixed_point = prev')]),
 ('n-pd-action-err-helper', [], [(PD, 'struct ccn_node *CCNdispatchAction(', 'static void StopOn(bool flag, const char *what)\n{\n    if (!flag) { return; }\n    if (phase_driver.verbosity > PD_V_QUIET) { fprintf(stderr, "[coconut] %s error received. Stopping...\\n", what); }\n    CTIabortCompilation();\n}\n\nstruct ccn_node *CCNdispatchAction('), (PD, '''    if (phase_driver.action_error) {
        if (phase_driver.verbosity > PD_V_QUIET) {
            fprintf(stderr, "[coconut] Action error received. Stopping...\\n");
        }
        CTIabortCompilation();
    }
''', '    StopOn(phase_driver.action_error, "Action");\n'), (PD, '''    if (phase_driver.phase_error) {
        if (phase_driver.verbosity > PD_V_QUIET) {
            fprintf(stderr, "[coconut] Phase error received. Stopping...\\n");
        }
        CTIabortCompilation();
    }
''', '    StopOn(phase_driver.phase_error, "Phase");\n')]),
]
