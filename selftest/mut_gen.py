B = 'cocogen/dynamic_backend/'
CP, FR, CK, NC, CC, TF = (B + x for x in ('gen_copy_traversal.c', 'gen_free_traversal.c', 'gen_check_traversal.c', 'gen_node_constructor.c', 'gen_constructor_call.c', 'gen_traversal_functions.c'))
PT, UT, UP, EN, EV, AE, DT = (B + x for x in ('gen_pass_table.c', 'gen_user_traversals.c', 'gen_user_passes.c', 'gen_enums.c', 'gen_enum_values.c', 'gen_node_access_funcs_error.c', 'gen_trav_data_tables.c'))
DC, TV = B + 'gen_trav_data_ctors.c', B + 'gen_trav_v_table.c'
AA, IT, GG, AH = ('cocogen/phase_driver/' + x for x in ('gen_action_array.c', 'gen_ids_table.c', 'gen_gate_header.c', 'gen_action_array_header.c'))
FM = 'cocogen/gen_helpers/format.c'
HP = 'cocogen/gen_helpers/helpers.c'
MUTANTS = [
 # --- copy
 ('cp-link-deep', ['C23'], [(CP, '    if (ATTRIBUTE_TYPE(node) == AT_string) {\n        OUT_FIELD("%s_%s(new_node) = STRcpy', '''    if (ATTRIBUTE_TYPE(node) == AT_link) {
        OUT_FIELD("%s_%s(new_node) = TRAVopt(%s_%s(arg_node))", node_name, attr_name, node_name, attr_name);
    } else if (ATTRIBUTE_TYPE(node) == AT_string) {
        OUT_FIELD("%s_%s(new_node) = STRcpy''')]),
 ('cp-ctor-skip', ['C23'], [(CP, '    if (ATTRIBUTE_IS_INHERITED(node) || ATTRIBUTE_IS_SYNTHESIZED(node)) {', '    if (ATTRIBUTE_IS_INHERITED(node) || ATTRIBUTE_IS_SYNTHESIZED(node) || !ATTRIBUTE_IN_CONSTRUCTOR(node)) {')]),
 ('cp-string-alias', ['C23'], [(CP, 'STRcpy(%s_%s(arg_node))', '%s_%s(arg_node)')]),
 ('cp-pos', ['C23'], [(CP, 'NODE_ECOL(target) = NODE_ECOL(source)', 'NODE_ECOL(target) = NODE_BCOL(source)')]),
 ('cp-file-alias', ['C23'], [(CP, 'STRcpy(NODE_FILENAME(source))', 'NODE_FILENAME(source)')]),
 ('cp-child-src', ['C23'], [(CP, 'OUT_FIELD("%s_%s(new_node) = TRAVopt(%s_%s(arg_node))", node_name, child_name, node_name, child_name);\n    TRAVnext(node);', 'OUT_FIELD("%s_%s(new_node) = TRAVopt(%s_%s(arg_node))", node_name, child_name, node_name, child_name);\n    if (!CHILD_IN_CONSTRUCTOR(node))\n        TRAVnext(node);')]),
 ('cp-n-reorder', [], [(CP, '    TRAVichildren(node);\n    TRAViattributes(node);\n    OUT_FIELD("return', '    TRAViattributes(node);\n    TRAVichildren(node);\n    OUT_FIELD("return')]),
 ('cp-n-base-last', [], [(CP, '    OUT_STATEMENT("CopyBaseNode(%s, %s)", new_node_name, node_argument_name);\n    TRAVichildren(node);\n    TRAViattributes(node);\n', '    TRAVichildren(node);\n    TRAViattributes(node);\n    OUT_STATEMENT("CopyBaseNode(%s, %s)", new_node_name, node_argument_name);\n')]),
 ('cp-n-helper', [], [(CP, 'node_st *DGCTattribute(node_st *node)\n{', '''static void copy_value(char *node_name, char *attr_name, const char *before, const char *after)
{
    GeneratorContext *ctx = globals.gen_ctx;
    OUT("%s_%s(new_node) = %s%s_%s(arg_node)%s;\\n", node_name, attr_name, before, node_name, attr_name, after);
}

node_st *DGCTattribute(node_st *node)
{'''), (CP, 'OUT_FIELD("%s_%s(new_node) = STRcpy(%s_%s(arg_node))", node_name, attr_name, node_name, attr_name);', 'copy_value(node_name, attr_name, "STRcpy(", ")");'),
   (CP, '        OUT_FIELD("%s_%s(new_node) = %s_%s(arg_node)", node_name, attr_name, node_name, attr_name);', '        copy_value(node_name, attr_name, "", "");')]),
 ('cp-n-switch', [], [(CP, '''    if (ATTRIBUTE_TYPE(node) == AT_string) {
        OUT_FIELD("%s_%s(new_node) = STRcpy(%s_%s(arg_node))", node_name, attr_name, node_name, attr_name);
    } else if (ATTRIBUTE_TYPE(node) == AT_user) {''', '''    bool is_text = false;
    switch (ATTRIBUTE_TYPE(node)) {
    case AT_string:
        is_text = true;
        break;
    default:
        break;
    }
    if (is_text) {
        OUT_FIELD("%s_%s(new_node) = STRcpy(%s_%s(arg_node))", node_name, attr_name, node_name, attr_name);
    } else if (ATTRIBUTE_TYPE(node) == AT_user) {''')]),
 # --- free
 ('fr-link', ['C25'], [(FR, 'if (ATTRIBUTE_TYPE(node) == AT_string) {', 'if (ATTRIBUTE_TYPE(node) == AT_string || ATTRIBUTE_TYPE(node) == AT_user) {')]),
 ('fr-ctor-only', ['C25'], [(FR, 'if (ATTRIBUTE_TYPE(node) == AT_string) {', 'if (ATTRIBUTE_TYPE(node) == AT_string && ATTRIBUTE_IN_CONSTRUCTOR(node)) {')]),
 ('fr-order', ['C25'], [(FR, '    OUT_FIELD("MEMfree(NODE_FILENAME(arg_node))");\n', ''), (FR, '    OUT_FIELD("MEMfree(arg_node)");\n', '    OUT_FIELD("MEMfree(arg_node)");\n    OUT_FIELD("MEMfree(NODE_FILENAME(arg_node))");\n')]),
 ('fr-next-string', ['C25'], [(FR, 'ID_LWR(ATTRIBUTE_NAME(node)));\n    }\n    TRAVnext(node);', 'ID_LWR(ATTRIBUTE_NAME(node)));\n        return node;\n    }\n    TRAVnext(node);')]),
 ('fr-data', ['C25'], [(FR, '    OUT_FIELD("MEMfree(arg_node->data.N_%s)", ID_LWR(INODE_NAME(node)));\n', '    if (INODE_IATTRIBUTES(node) || INODE_ICHILDREN(node)) {\n    OUT_FIELD("MEMfree(arg_node->data.N_%s)", ID_LWR(INODE_NAME(node)));\n    }\n')]),
 ('fr-ret', ['C25'], [(FR, 'return NULL', 'return arg_node')]),
 ('fr-children-mand', ['C25'], [(FR, 'if (INODE_ICHILDREN(node)) {', 'if (INODE_ICHILDREN(node) && CHILD_IN_CONSTRUCTOR(INODE_ICHILDREN(node))) {')]),
 ('fr-n-order', [], [(FR, '    if (INODE_ICHILDREN(node)) {\n        OUT_FIELD("TRAVchildren(arg_node)");\n    }\n    TRAViattributes(node);\n', '    TRAViattributes(node);\n    if (INODE_ICHILDREN(node)) {\n        OUT_FIELD("TRAVchildren(arg_node)");\n    }\n')]),
 ('fr-n-always', [], [(FR, '    if (INODE_ICHILDREN(node)) {\n        OUT_FIELD("TRAVchildren(arg_node)");\n    }\n    TRAViattributes(node);\n', '    OUT_FIELD("TRAVchildren(arg_node)");\n    TRAViattributes(node);\n')]),
 ('fr-n-macro', [], [(FR, 'MEMfree(arg_node->data.N_%s->%s)", ID_LWR(INODE_NAME(curr_node)), ID_LWR(ATTRIBUTE_NAME(node))', 'MEMfree(%s_%s(arg_node))", ID_UPR(INODE_NAME(curr_node)), ID_UPR(ATTRIBUTE_NAME(node))')]),
 # --- check
 ('ck-begin-excl', ['C24'], [(CK, "(LIFETIME_RANGE_NEXT_ACTION_ID(lifetime_begin))", "(LIFETIME_RANGE_NEXT_ACTION_ID(lifetime_begin) + 1)")]),
 ('ck-opt-is-mand', ['C24'], [(CK, 'LifetimeChildOptional(ILIFETIME_BEGIN(node), ILIFETIME_END(node));', 'LifetimeChildMandatory(ILIFETIME_BEGIN(node), ILIFETIME_END(node));')]),
 ('ck-begin-begin', ['C24'], [(CK, 'LifetimeChildAllowed(ILIFETIME_BEGIN(node), ILIFETIME_END(node));', 'LifetimeChildAllowed(ILIFETIME_BEGIN(node), ILIFETIME_BEGIN(node));')]),
 ('ck-range-and', ['C24'], [(CK, '    if (!ILIFETIME_BEGIN(node) && !ILIFETIME_END(node)) {\n        if (ILIFETIME_TYPE(node) == LT_disallowed) {\n            OUT_BEGIN_IF', '    if (!ILIFETIME_BEGIN(node) || !ILIFETIME_END(node)) {\n        if (ILIFETIME_TYPE(node) == LT_disallowed) {\n            OUT_BEGIN_IF')]),
 ('ck-nodeset-first', ['C24'], [(CK, '    TRAVleft(node);\n    TRAVright(node);\n    return node;', '    TRAVright(node);\n    return node;')]),
 ('ck-no-lifetimes-attr', ['C24'], [(CK, '    curr_attribute = node;\n    TRAVlifetimes(node);', '    curr_attribute = node;\n    if (ATTRIBUTE_TYPE(node) == AT_link) TRAVlifetimes(node);')]),
 ('ck-target', ['C24'], [(CK, '    // Child & attributes change the target, so change it back.\n    data->lifetime_target = LT_NODE;\n', '')]),
 ('ck-children', ['C24'], [(CK, '    if (INODE_ICHILDREN(node)) {\n        OUT_FIELD("TRAVchildren(arg_node)");', '    if (INODE_ICHILDREN(node) && !INODE_LIFETIMES(node)) {\n        OUT_FIELD("TRAVchildren(arg_node)");')]),
 ('ck-n-order', [], [(CK, '    TRAVichildren(node);\n    TRAViattributes(node);\n', '    TRAViattributes(node);\n    TRAVichildren(node);\n')]),
 ('ck-n-dispatch', [], [(CK, '''        if (ILIFETIME_TYPE(node) == LT_disallowed) {
            LifetimeChildDisallowed(ILIFETIME_BEGIN(node), ILIFETIME_END(node));
        } else if (ILIFETIME_TYPE(node) == LT_allowed) {
            LifetimeChildAllowed(ILIFETIME_BEGIN(node), ILIFETIME_END(node));
        } else if (ILIFETIME_TYPE(node) == LT_mandatory) {''', '''        node_st *from = ILIFETIME_BEGIN(node);
        node_st *to = ILIFETIME_END(node);
        if (ILIFETIME_TYPE(node) == LT_allowed) {
            LifetimeChildAllowed(from, to);
        } else if (ILIFETIME_TYPE(node) == LT_disallowed) {
            LifetimeChildDisallowed(from, to);
        } else if (ILIFETIME_TYPE(node) == LT_mandatory) {''')]),
 # --- constructors
 ('nc-attr-arg', ['C26'], [(NC, '    if (ATTRIBUTE_IN_CONSTRUCTOR(node)) {', '    if (ATTRIBUTE_IN_CONSTRUCTOR(node) && ATTRIBUTE_TYPE(node) != AT_user) {')]),
 ('nc-count', ['C26'], [(NC, '    num_children++;\n    if (CHILD_IN_CONSTRUCTOR(node)) {', '    if (CHILD_IN_CONSTRUCTOR(node)) {\n        num_children++;')]),
 ('nc-count-reset', ['C26', 'C32'], [(NC, '    GeneratorContext *ctx = globals.gen_ctx;\n    num_children = 0;', '    GeneratorContext *ctx = globals.gen_ctx;')]),
 ('nc-children-null', ['C26'], [(NC, 'if (num_children) {', 'if (num_children > 1) {')]),
 ('nc-default-float', ['C26'], [(NC, '    } else if (ATTRIBUTE_TYPE(node) == AT_user) {\n', '    } else if (ATTRIBUTE_TYPE(node) == AT_user || ATTRIBUTE_TYPE(node) == AT_uint64) {\n'), (NC, '    OUT_FIELD("%s_%s(node) = 0", node_name_upr', '    OUT_FIELD("%s_%s(node) = 1", node_name_upr')]),
 ('nc-n-local', [], [(NC, '    if (CHILD_IN_CONSTRUCTOR(node)) {\n        OUT_FIELD("%s_%s(node) = %s", node_name_upr, ID_UPR(CHILD_NAME(node)), ID_LWR(CHILD_NAME(node)));\n    } else {\n        OUT_FIELD("%s_%s(node) = NULL", node_name_upr, ID_UPR(CHILD_NAME(node)));\n    }', '    const char *value = CHILD_IN_CONSTRUCTOR(node) ? ID_LWR(CHILD_NAME(node)) : "NULL";\n    OUT_FIELD("%s_%s(node) = %s", node_name_upr, ID_UPR(CHILD_NAME(node)), value);')]),
 # --- trav functions
 ('tf-first-only', ['C28'], [(TF, '        curr = ID_NEXT(curr);', '        curr = ID_NEXT(curr) ? ID_NEXT(ID_NEXT(curr)) : NULL;')]),
 ('tf-nostore', ['C28'], [(TF, 'OUT_FIELD("%s_%s(node) = TRAVopt(%s_%s(node))", ID_UPR(curr), key_upr, ID_UPR(curr), key_upr);', 'OUT_FIELD("TRAVopt(%s_%s(node))", ID_UPR(curr), key_upr);')]),
 ('tf-fallthrough', ['C28'], [(TF, '        OUT_FIELD("break");\n        OUT_END_CASE();', '        OUT_END_CASE_NO_BREAK();')]),
 ('tf-lookup', ['C28'], [(TF, '        ID_NEXT(node_name) = entry;\n        HTinsert', '        HTinsert')]),
 ('tf-n-for', [], [(TF, '    while (curr) {', '    for (; curr != NULL; curr = ID_NEXT(curr)) {'), (TF, '        curr = ID_NEXT(curr);\n', '')]),
 ('tf-n-chain', [], [(TF, '    if (entry == NULL) {\n        HTinsert(lookup, ID_ORIG(CHILD_NAME(node)), node_name);\n    } else {\n        ID_NEXT(node_name) = entry;\n        HTinsert(lookup, ID_ORIG(CHILD_NAME(node)), node_name);\n    }', '    if (entry != NULL) {\n        ID_NEXT(node_name) = entry;\n    }\n    HTinsert(lookup, ID_ORIG(CHILD_NAME(node)), node_name);')]),
 # --- tables, enums
 ('pt-skip', ['C22'], [(PT, '    OUT("&%s, ", func);', '    if (!IPASS_TARGET_FUNC(node)) OUT("&%s, ", func);')]),
 ('en-sys-order', ['C22'], [(EN, '        OUT_ENUM_FIELD("TRAV_free");\n        OUT_ENUM_FIELD("TRAV_check");\n', '        OUT_ENUM_FIELD("TRAV_check");\n        OUT_ENUM_FIELD("TRAV_free");\n')]),
 ('ev-null', ['C22'], [(EV, '    OUT_ENUM_FIELD("%s_NULL", enum_prefx);\n    TRAVvals(node);', '    TRAVvals(node);\n    OUT_ENUM_FIELD("%s_NULL", enum_prefx);')]),
 ('dt-sys', ['C22'], [(DT, '    data->in_init_round = true;\n    data->indent = indent;\n    TRAVitraversals(node);\n', '    data->in_init_round = true;\n    data->indent = indent;\n    OUT("TRAVdataNOP, ");\n    TRAVitraversals(node);\n')]),
 ('dt-swap', ['C22', 'C31'], [(DT, 'OUT("TRAVdataInit%s,"', 'OUT("TRAVdataFree%s,"')]),
 ('en-n-loop', [], [(EN, '''        OUT_ENUM_FIELD("TRAV_free");
        OUT_ENUM_FIELD("TRAV_check");
        OUT_ENUM_FIELD("TRAV_cpy");
''', '''        const char *system[] = {"free", "check", "cpy"};
        for (int i = 0; i < 3; i++) {
            OUT_ENUM_FIELD("TRAV_%s", system[i]);
        }
''')]),
 # --- user functions
 ('ut-nodata', ['C32'], [(UT, '    if (ITRAVERSAL_DATA(node)) {', '    if (ITRAVERSAL_DATA(node) && ITRAVERSAL_INODES(node)) {')]),
 ('ut-lwr', ['C29'], [(UT, 'OUT("node_st *%s%s(node_st *node)\\n{\\n    TRAVchildren(node);\\n    return node;\\n}\\n\\n", curr_trav, ID_LWR(node));', 'OUT("node_st *%s%s(node_st *node)\\n{\\n    TRAVchildren(node);\\n    return node;\\n}\\n\\n", curr_trav, ID_ORIG(node));')]),
 ('ut-next', ['C29'], [(UT, '    TRAVnext(node);\n    TRAVname(node);\n    return node;', '    TRAVname(node);\n    return node;')]),
 ('up-null', ['C29'], [(UP, 'return root;', 'return NULL;')]),
 ('up-n-open', [], [(UP, '    OUT("node_st *%s(node_st *root)\\n{\\n    return root;\\n}\\n\\n", func);', '    OUT("node_st *%s(node_st *root)\\n", func);\n    OUT("{\\n");\n    GNindentIncrease(ctx);\n    OUT("return root;\\n");\n    GNindentDecrease(ctx);\n    OUT("}\\n\\n");')]),
 # --- actions
 ('aa-cycle', ['C30'], [(AA, 'IPHASE_IS_CYCLE(node) ? "true": "false"', 'IPHASE_IS_CYCLE(node) && IPHASE_GATE_FUNC(node) ? "true": "false"')]),
 ('aa-name', ['C30'], [(AA, 'enum_action_pref, name_upr, ID_ORIG(IPASS_NAME(node)), name_upr);', 'enum_action_pref, name_upr, ID_LWR(IPASS_NAME(node)), name_upr);')]),
 ('aa-order', ['C30'], [(AA, '    OUT("{CCN_ACTION_TRAVERSAL, %s_check, \\"Check\\", .traversal = "\n        "{TRAV_check,},},\\n", enum_action_pref);\n\n', ''), (AA, '        "cleanup_ids_table, false, %s_cleanup,},},\\n",\n        enum_action_pref, ID_UPR(INODE_NAME(AST_ROOT_NODE(ast))), enum_action_pref);\n', '        "cleanup_ids_table, false, %s_cleanup,},},\\n",\n        enum_action_pref, ID_UPR(INODE_NAME(AST_ROOT_NODE(ast))), enum_action_pref);\n    OUT("{CCN_ACTION_TRAVERSAL, %s_check, \\"Check\\", .traversal = "\n        "{TRAV_check,},},\\n", enum_action_pref);\n')]),
 ('it-null', ['C30'], [(IT, '    OUT("%s_NULL, ", enum_action_pref);\n', '    if (!IPHASE_IS_CYCLE(node)) OUT("%s_NULL, ", enum_action_pref);\n')]),
 ('it-next', ['C30'], [(IT, '    OUT("%s_%s, ", enum_action_pref, ID_UPR(IACTIONS_REFERENCE(node)));\n    TRAVnext(node);', '    TRAVnext(node);\n    OUT("%s_%s, ", enum_action_pref, ID_UPR(IACTIONS_REFERENCE(node)));')]),
 ('gg-lwr', ['C32'], [(GG, 'ID_ORIG(IPHASE_GATE_FUNC(node))', 'ID_LWR(IPHASE_GATE_FUNC(node))')]),
 ('ah-root', ['C30'], [(AH, 'ID_UPR(IPHASE_NAME(AST_START_PHASE(node)))', 'ID_UPR(IPHASE_NAME(AST_IPHASES(node)))')]),
 ('ah-size', ['C30'], [(AH, '    size += 3;\n', '    size += 2;\n')]),
 ('aa-n-split', [], [(AA, '''    OUT("{CCN_ACTION_PASS, %s_%s, \\"%s\\", .pass = {PASS_%s,},},\\n",
        enum_action_pref, name_upr, ID_ORIG(IPASS_NAME(node)), name_upr);''', '''    OUT("{.type = CCN_ACTION_PASS, .action_id = %s_%s, ", enum_action_pref, name_upr);
    OUT_NO_INDENT(".name = \\"%s\\", ", ID_ORIG(IPASS_NAME(node)));
    OUT_NO_INDENT(".pass = {.pass_type = PASS_%s,},},\\n", name_upr);''')]),
 # --- accessors / formats
 ('ae-name', ['C32'], [(AE, '    OUT_START_FUNC("void CCNaccesserror_%s_%s(int line, const "\n                    "char *file, const char *func)",\n                    ID_LWR(INODE_NAME(curr_node)),', '    OUT_START_FUNC("void CCNaccesserror_%s_%s(int line, const "\n                    "char *file, const char *func)",\n                    ID_ORIG(INODE_NAME(curr_node)),')]),
 # --- nodeset and computed attributes
 ('ns-acc-first', ['C27'], [(B + 'gen_nodeset_access_funcs.c', 'ID_UPR(ATTRIBUTE_NAME(curr_attribute)));', 'ID_UPR(ATTRIBUTE_NAME(INODESET_IATTRIBUTES(curr_nodeset))));')]),
 ('ns-acc-one', ['C27'], [(B + 'gen_nodeset_access_funcs.c', '    OUT_END_CASE_NO_BREAK();\n    TRAVchildren(node);', '    OUT_END_CASE_NO_BREAK();\n    TRAVleft(node);')]),
 ('ag-mark', ['C26'], [(NC, '''OUT_FIELD("node->data.N_%s->_%s.ccn_val_set = false", node_name_lwr, ID_LWR(ATTRIBUTE_NAME(node)));''', '''OUT_FIELD("node->data.N_%s->_%s.ccn_val_set = %s", node_name_lwr, ID_LWR(ATTRIBUTE_NAME(node)), ATTRIBUTE_IS_INHERITED(node) ? "true" : "false");''')]),
 ('ag-guard', ['C27'], [(B + 'gen_node_access_funcs.c', 'ccn_val_set == false"', 'ccn_val_set"')]),
 ('fr-own', ['C25'], [(FR, 'if (ATTRIBUTE_TYPE(node) == AT_string) {', 'if (ATTRIBUTE_TYPE(node) == AT_string && !ATTRIBUTE_IS_PROPAGATED(node)) {')]),
]
