F = 'cocogen/frontend/'
BST, CEX, CHA, CPR, ST = F + 'buildsymboltable.c', F + 'check_existance.c', F + 'check_attributes.c', F + 'check_product_rules.c', F + 'symboltable.c'
CLT, MITL, AITA = F + 'lifetimes/check_lifetimes.c', F + 'lifetimes/map_id_to_lifetimes.c', F + 'lifetimes/assign_id_to_actions.c'
PRA = F + 'nodesets/propagate_attributes.c'
MUTANTS = [
 # --- C14
 ('fe-bst-noabort', ['C14'], [(BST, '    CTIabortOnError();\n', '')]),
 ('fe-bst-abort-cond', ['C14'], [(BST, '    CTIabortOnError();\n', '    if (pass_ste == NULL) CTIabortOnError();\n')]),
 ('fe-clt-noabort', ['C14'], [(CLT, '    CTIabortOnError();\n', '')]),
 ('fe-cha-nomark', ['C14'], [(CHA, '''                   "constructor keyword\\n");
            CCNerrorPhase();''', '''                   "constructor keyword\\n");''')]),
 ('fe-mitl-noabort', ['C14'], [(MITL, '    CTIabortOnError();\n', '')]),
 ('fe-cex-early', ['C14'], [(CEX, '    CTIabortOnError();\n    CCNfree(trav', '    if (!enum_prefix_ste) return node;\n    CTIabortOnError();\n    CCNfree(trav')]),
 ('fe-n-abort-after', [], [(CEX, '    CTIabortOnError();\n    CCNfree(trav_data_names);\n', '    CCNfree(trav_data_names);\n    CTIabortOnError();\n')]),
 ('fe-n-abort-helper', [], [(CEX, 'node_st *CEXast(node_st *node)\n{', 'static void stop(void)\n{\n    CTIabortOnError();\n}\n\nnode_st *CEXast(node_st *node)\n{'), (CEX, '    CTIabortOnError();\n    CCNfree(trav', '    stop();\n    CCNfree(trav')]),
 # --- C15
 ('fmt-missing', ['C15'], [(CEX, '"Could not find action: %s\\n", ID_ORIG(IACTIONS_REFERENCE(node))', '"Could not find action: %s (line %d)\\n", ID_ORIG(IACTIONS_REFERENCE(node))')]),
 ('fmt-node', ['C15'], [(CEX, '"Could not find action: %s\\n", ID_ORIG(IACTIONS_REFERENCE(node))', '"Could not find action: %s\\n", IACTIONS_REFERENCE(node)')]),
 ('fmt-user', ['C15'], [(BST, 'CTIobj(CTI_ERROR, true, info, "Duplicate name: %s\\n", ID_ORIG(ITRAVERSAL_NAME(node)));', 'CTIobj(CTI_ERROR, true, info, ID_ORIG(ITRAVERSAL_NAME(node)));')]),
 ('fmt-neutral', [], [(BST, 'CTIobj(CTI_ERROR, true, info, "Duplicate name: %s\\n", ID_ORIG(ITRAVERSAL_NAME(node)));', 'const char *fmt = "Duplicate name: %s\\n";\n            CTIobj(CTI_ERROR, true, info, fmt, ID_ORIG(ITRAVERSAL_NAME(node)));')]),
 ('fmt-gen', ['C15'], [('cocogen/dynamic_backend/gen_check_traversal.c', 'CTI(CTI_ERROR, true, \\"', 'CTI(CTI_ERROR, true, \\"%%s')]),
 # --- C16
 ('fe-dup-node-skip', ['C16'], [(BST, 'if (STlookup(first_ste, INODE_NAME(node))) {', 'node_st *old = STlookup(first_ste, INODE_NAME(node));\n    if (old && NODE_TYPE(old) == NT_INODE) {')]),
 ('fe-dup-uid-phase', ['C16'], [(BST, '            addToST(IPHASE_IPREFIX(node), node);\n', '')]),
 ('fe-dup-warn', ['C16'], [(BST, 'CTIobj(CTI_ERROR, true, info, "Duplicate name: %s\\n", ID_ORIG(ITRAVERSAL_NAME(node)));', 'CTIobj(CTI_WARN, true, info, "Duplicate name: %s\\n", ID_ORIG(ITRAVERSAL_NAME(node)));')]),
 ('fe-dup-passfunc-lost', ['C16'], [(BST, 'pass_ste = STadd(pass_ste,', 'pass_ste = STadd(NULL,')]),
 ('fe-dup-passfunc-key', ['C16'], [(BST, 'STadd(pass_ste, IPASS_TARGET_FUNC(node), node)', 'STadd(pass_ste, IPASS_NAME(node), node)')]),
 ('fe-dup-value', ['C16'], [(BST, 'addToST(IPASS_IPREFIX(node), node)', 'addToST(IPASS_IPREFIX(node), IPASS_IPREFIX(node))')]),
 ('fe-st-case', ['C16'], [(ST, 'STReq(ID_LWR(STE_KEY(curr)), ID_LWR(node))', 'STReq(ID_ORIG(STE_KEY(curr)), ID_ORIG(node))')]),
 ('fe-st-mixed', ['C16'], [(ST, 'STReq(ID_LWR(STE_KEY(curr)), ID_LWR(node))', 'STReq(ID_LWR(STE_KEY(curr)), ID_ORIG(node))')]),
 ('fe-add-last', ['C16'], [(BST, '    last_ste = new_ste;\n', '    if (!last_ste) last_ste = new_ste;\n')]),
 ('fe-members-notcleared', ['C16'], [(CEX, '''    TRAVexpr(node);
    if (node_ste != NULL) {
        TRAVstart(node_ste, TRAV_free);
        node_ste = NULL;
    }''', '''    TRAVexpr(node);''')]),
 ('fe-members-between', ['C16'], [(CEX, '''    TRAViattributes(node);
    TRAVichildren(node);
    if (node_ste''', '''    TRAViattributes(node);
    node_ste = NULL;
    TRAVichildren(node);
    if (node_ste''')]),
 ('fe-travdata-keep', ['C16'], [(CEX, '    trav_data_names = NULL;\n    TRAVchildren', '    TRAVchildren')]),
 ('fe-travdata-drop', ['C16'], [(CEX, '        trav_data_names = STadd(trav_data_names, ITRAVDATA_NAME(node), ITRAVDATA_NAME(node));', '        trav_data_names = STadd(NULL, ITRAVDATA_NAME(node), ITRAVDATA_NAME(node));')]),
 ('fe-attr-add-only-typed', ['C16'], [(CEX, '''    if (STlookup(node_ste, ATTRIBUTE_NAME(node)) == NULL) {
        node_ste =''', '''    if (STlookup(node_ste, ATTRIBUTE_NAME(node)) == NULL) {
        if (ATTRIBUTE_IN_CONSTRUCTOR(node)) node_ste =''')]),
 ('fe-child-dup-only', ['C16'], [(CEX, '''        CTIobj(CTI_ERROR, true, info, "Double declaration of attribute/child name: %s\\n", ID_ORIG(CHILD_NAME(node)));''', '''        if (NODE_TYPE(ref) == NT_INODE) CTIobj(CTI_ERROR, true, info, "Double declaration of attribute/child name: %s\\n", ID_ORIG(CHILD_NAME(node)));''')]),
 ('fe-enumprefix', ['C16'], [(CEX, 'enum_prefix_ste = STadd(enum_prefix_ste, IENUM_IPREFIX(node), node);', 'enum_prefix_ste = STadd(enum_prefix_ste, IENUM_NAME(node), node);')]),
 ('fe-n-bst-helper', [], [(BST, 'node_st *BSTiphase(node_st *node)\n{', '''static void enter(node_st *id, node_st *node)
{
    if (id == NULL) {
        return;
    }
    if (STlookup(first_ste, id) != NULL) {
        struct ctinfo info;
        id_to_info(id, &info);
        CTIobj(CTI_ERROR, true, info, "Duplicate name: %s\\n", ID_ORIG(id));
        return;
    }
    addToST(id, node);
}

node_st *BSTiphase(node_st *node)
{'''), (BST, '''    if (STlookup(first_ste, ITRAVERSAL_NAME(node))) {
        struct ctinfo info;
        id_to_info(ITRAVERSAL_NAME(node), &info);
        CTIobj(CTI_ERROR, true, info, "Duplicate name: %s\\n", ID_ORIG(ITRAVERSAL_NAME(node)));
    } else {
        addToST(ITRAVERSAL_NAME(node), node);
    }

    if (ITRAVERSAL_IPREFIX(node)) {
        if (STlookup(first_ste, ITRAVERSAL_IPREFIX(node))) {
            struct ctinfo info;
            id_to_info(ITRAVERSAL_IPREFIX(node), &info);
            CTIobj(CTI_ERROR, true, info, "Duplicate name: %s\\n", ID_ORIG(ITRAVERSAL_IPREFIX(node)));
        } else {
            addToST(ITRAVERSAL_IPREFIX(node), node);
        }
    }
''', '    enter(ITRAVERSAL_NAME(node), node);\n    enter(ITRAVERSAL_IPREFIX(node), node);\n')]),
 ('fe-n-st-for', [], [(ST, '''    node_st *curr = ste;
    while (curr) {
        if (STReq(ID_LWR(STE_KEY(curr)), ID_LWR(node))) {
            return STE_VALUE(curr);
        }
        curr = STE_NEXT(curr);
    }
    return NULL;''', '''    for (node_st *curr = ste; curr != NULL; curr = STE_NEXT(curr)) {
        node_st *key = STE_KEY(curr);
        if (!STReq(ID_LWR(key), ID_LWR(node))) {
            continue;
        }
        return STE_VALUE(curr);
    }
    return NULL;''')]),
 ('fe-n-add-stadd', [], [(BST, '''    node_st *new_ste = ASTste();
    STE_KEY(new_ste) = key;
    STE_VALUE(new_ste) = val;
''', '''    node_st *new_ste = STadd(NULL, key, val);
''')]),
 ('fe-n-addhead', [], [(BST, '''    node_st *new_ste = ASTste();
    STE_KEY(new_ste) = key;
    STE_VALUE(new_ste) = val;
    if (!first_ste) {
        first_ste = new_ste;
    }
    if (last_ste) {
        STE_NEXT(last_ste) = new_ste;
    }
    last_ste = new_ste;
''', '''    first_ste = STadd(first_ste, key, val);
''')]),
 ('fe-n-clear-before', [], [(CEX, '''    TRAViattributes(node);
    TRAVichildren(node);
    if (node_ste != NULL) {
        TRAVstart(node_ste, TRAV_free);
        node_ste = NULL;
    }
''', '''    if (node_ste != NULL) {
        TRAVstart(node_ste, TRAV_free);
        node_ste = NULL;
    }
    TRAViattributes(node);
    TRAVichildren(node);
    if (node_ste != NULL) {
        TRAVstart(node_ste, TRAV_free);
        node_ste = NULL;
    }
''')]),
 ('fe-n-clear-ternary', [], [(CEX, '''    TRAVexpr(node);
    if (node_ste != NULL) {
        TRAVstart(node_ste, TRAV_free);
        node_ste = NULL;
    }''', '''    TRAVexpr(node);
    node_ste = node_ste ? TRAVstart(node_ste, TRAV_free) : NULL;
    node_ste = NULL;''')]),
 # --- C17
 ('fe-ref-setlit-kind', ['C17'], [(CEX, 'if (NODE_TYPE(entry) != NT_INODE) {', 'if (NODE_TYPE(entry) != NT_INODE && NODE_TYPE(entry) != NT_INODESET) {')]),
 ('fe-ref-setref', ['C17'], [(CEX, '} else if (NODE_TYPE(ref_node) != NT_INODESET) {', '} else if (NODE_TYPE(ref_node) == NT_IENUM) {')]),
 ('fe-ref-child-ret', ['C17'], [(CEX, '''    if (!ref) {
        struct ctinfo info;''', '''    if (!ref) {
        if (CHILD_IN_CONSTRUCTOR(node)) {
            return node;
        }
        struct ctinfo info;''')]),
 ('fe-ref-attr-kind', ['C17'], [(CEX, '''            if (NODE_TYPE(ste_entry) == NT_INODE || NODE_TYPE(ste_entry) == NT_INODESET) {
                ATTRIBUTE_TYPE''', '''            if (NODE_TYPE(ste_entry) == NT_INODE || NODE_TYPE(ste_entry) == NT_INODESET || NODE_TYPE(ste_entry) == NT_IPASS) {
                ATTRIBUTE_TYPE''')]),
 ('fe-ref-attr-class', ['C17'], [(CEX, '''            if (NODE_TYPE(ste_entry) == NT_INODE || NODE_TYPE(ste_entry) == NT_INODESET) {
                ATTRIBUTE_TYPE(node) = AT_link;''', '''            if (NODE_TYPE(ste_entry) == NT_INODE) {
                ATTRIBUTE_TYPE(node) = AT_link;''')]),
 ('fe-ref-data-class', ['C17'], [(CEX, '                ITRAVDATA_TYPE(node) = AT_link;\n', '                ATTRIBUTE_TYPE(node) = AT_link;\n')]),
 ('fe-ref-action', ['C17'], [(CEX, ' && NODE_TYPE(ref) != NT_IPASS) {', ' && NODE_TYPE(ref) != NT_IPASS && NODE_TYPE(ref) != NT_IENUM) {')]),
 ('fe-ref-child-class', ['C17'], [(CEX, '''    if (NODE_TYPE(ref) == NT_INODESET) {
        CHILD_TYPE(node) = CT_inodeset;
    } else if(NODE_TYPE(ref) == NT_INODE) {
        CHILD_TYPE(node) = CT_inode;''', '''    if (NODE_TYPE(ref) == NT_INODESET || NODE_TYPE(ref) == NT_INODE) {
        CHILD_TYPE(node) = CT_inodeset;''')]),
 ('fe-ref-notraversed', ['C17'], [(CEX, '''    TRAViattributes(node);
    TRAVexpr(node);
    if (node_ste''', '''    TRAViattributes(node);
    if (node_ste''')]),
 ('fe-n-ref-switch', [], [(CEX, '''    if (NODE_TYPE(ref) == NT_INODESET) {
        CHILD_TYPE(node) = CT_inodeset;
    } else if(NODE_TYPE(ref) == NT_INODE) {
        CHILD_TYPE(node) = CT_inode;
    } else {
        struct ctinfo info;
        id_to_info(CHILD_NAME(node), &info);
        CTIobj(CTI_ERROR, true, info, "Child is not a node or nodeset: %s\\n", ID_ORIG(CHILD_NAME(node)));
    }''', '''    switch (NODE_TYPE(ref)) {
    case NT_INODESET:
        CHILD_TYPE(node) = CT_inodeset;
        break;
    case NT_INODE:
        CHILD_TYPE(node) = CT_inode;
        break;
    default: {
        struct ctinfo info;
        id_to_info(CHILD_NAME(node), &info);
        CTIobj(CTI_ERROR, true, info, "Child is not a node or nodeset: %s\\n", ID_ORIG(CHILD_NAME(node)));
    }
    }''')]),
 ('fe-n-ref-helper', [], [(CEX, 'node_st *CEXsetliteral(node_st *node)\n{', '''static bool is_a(node_st *found, enum ccn_nodetype type)
{
    return found != NULL && NODE_TYPE(found) == type;
}

node_st *CEXsetliteral(node_st *node)
{'''), (CEX, '        if (NODE_TYPE(entry) != NT_INODE) {', '        if (!is_a(entry, NT_INODE)) {')]),
 ('fe-n-ref-early', [], [(CEX, '''    if (!ref_node) {
        CTI(CTI_ERROR, true, "Set reference is undefined: %s\\n", ID_ORIG(SETREFERENCE_REFERENCE(node)));
    } else if (NODE_TYPE(ref_node) != NT_INODESET) {''', '''    if (!ref_node) {
        CTI(CTI_ERROR, true, "Set reference is undefined: %s\\n", ID_ORIG(SETREFERENCE_REFERENCE(node)));
        return node;
    }
    if (NODE_TYPE(ref_node) != NT_INODESET) {''')]),
 # --- C34
 ('fe-kind-pass', ['C34'], [(MITL, 'CompareID(IPASS_NAME(action_lookup), curr_target) || CompareID(IPASS_IPREFIX(action_lookup), curr_target)', 'CompareID(IPASS_NAME(action_lookup), curr_target) || CompareID(ITRAVERSAL_IPREFIX(action_lookup), curr_target)')]),
 ('fe-kind-nodeset', ['C34'], [(PRA, """                       ID_ORIG(INODESET_NAME(node)));
            } else {""", """                       ID_ORIG(INODE_NAME(node)));
            } else {""")]),
 ('fe-kind-data', ['C34'], [(PRA, """                ID_ORIG(CHILD_NAME(child)), ID_ORIG(INODE_NAME(node)),
                ID_ORIG(INODESET_NAME(DATA_PRA_GET()->curr_nodeset)));""", """                ID_ORIG(CHILD_NAME(child)), ID_ORIG(INODE_NAME(node)),
                ID_ORIG(INODE_NAME(DATA_PRA_GET()->curr_nodeset)));""")]),
 ('fe-kind-loop', ['C34'], [(PRA, 'STReq(ID_LWR(CHILD_NAME(child)),', 'STReq(ID_LWR(ATTRIBUTE_NAME(child)),')]),
 ('fe-kind-n-branch', [], [(MITL, """    } else if (NODE_TYPE(action_lookup) == NT_IPASS) {
        if (Comp""", """    } else if (NODE_TYPE(action_lookup) != NT_IPHASE && NODE_TYPE(action_lookup) == NT_IPASS) {
        if (Comp""")]),
 # --- C35
 ('fe-cha-skip-prop-root', ['C35'], [(CHA, '    if (ATTRIBUTE_IS_INHERITED(node) && !(DATA_CHA_GET()->in_nodeset) &&', '    if (ATTRIBUTE_IS_INHERITED(node) && !ATTRIBUTE_IS_PROPAGATED(node) && !(DATA_CHA_GET()->in_nodeset) &&')]),
 ('fe-cha-ctor-syn', ['C35'], [(CHA, '''        } else if (ATTRIBUTE_IS_INHERITED(node) ||
                   ATTRIBUTE_IS_SYNTHESIZED(node)) {''', '''        } else if (ATTRIBUTE_IS_INHERITED(node)) {''')]),
 ('fe-cha-life', ['C35'], [(CHA, '        if (ATTRIBUTE_IS_INHERITED(node) || ATTRIBUTE_IS_SYNTHESIZED(node)) {\n            CTIobj', '        if (ATTRIBUTE_IS_INHERITED(node) && ATTRIBUTE_IS_SYNTHESIZED(node)) {\n            CTIobj')]),
 ('fe-n-cha-elseif', [], [(CHA, '    if (ATTRIBUTE_LIFETIMES(node)) {', '    else if (ATTRIBUTE_LIFETIMES(node)) {')]),
 ('fe-clt-int', ['C35'], [(CLT, 'ATTRIBUTE_TYPE(node) != AT_string)', 'ATTRIBUTE_TYPE(node) != AT_string && ATTRIBUTE_TYPE(node) != AT_link_or_enum)')]),
 ('fe-mitl-node', ['C35'], [(MITL, "(ILIFETIME_TYPE(node) == LT_mandatory || ILIFETIME_TYPE(node) == LT_optional)", "ILIFETIME_TYPE(node) == LT_mandatory")]),
 ('fe-mitl-child', ['C35'], [(MITL, '    in_node = false;\n    TRAVichildren(node);', '    TRAVichildren(node);\n    in_node = false;')]),
 ('fe-root-last', ['C35'], [(CEX, '            AST_ROOT_NODE(root) = node;\n            seen_root_node = true;\n        } else {\n', '            AST_ROOT_NODE(root) = node;\n            seen_root_node = true;\n        } else if (INODE_ICHILDREN(node)) {\n')]),
 ('fe-start-any', ['C35'], [(CEX, '    if (IPHASE_IS_START(node)) {', '    if (IPHASE_IS_START(node) || IPHASE_IS_CYCLE(node)) {')]),
 ('fe-res-list', ['C35'], [(CEX, '    "PASS",\n    "CPY",', '    "CPY",')]),
 ('fe-res-case', ['C35'], [(CEX, 'STReq(ID_UPR(id), uid_reserved[i])', 'STReq(ID_ORIG(id), uid_reserved[i])')]),
 ('fe-res-off', ['C35'], [(CEX, 'i < sizeof(preserved_enum_prefix)/sizeof(preserved_enum_prefix[0])', 'i < sizeof(preserved_enum_prefix)/sizeof(preserved_enum_prefix[0]) - 1')]),
 ('fe-res-pass', ['C35'], [(CEX, '    checkUID(IPASS_IPREFIX(node));', '    if (IPASS_TARGET_FUNC(node)) checkUID(IPASS_IPREFIX(node));')]),
 ('fe-node-name', ['C35'], [(CEX, 'if (STReq(ID_LWR(INODE_NAME(node)), "node")) {', 'if (STReq(ID_ORIG(INODE_NAME(node)), "node")) {')]),
 ('fe-n-cha-bool', [], [(CHA, '''    if (ATTRIBUTE_LIFETIMES(node)) {
        if (ATTRIBUTE_IS_INHERITED(node) || ATTRIBUTE_IS_SYNTHESIZED(node)) {''', '''    bool is_ag = ATTRIBUTE_IS_INHERITED(node) || ATTRIBUTE_IS_SYNTHESIZED(node);
    if (ATTRIBUTE_LIFETIMES(node) != NULL && is_ag) {
        {''')]),
 ('fe-n-cha-helper', [], [(CHA, '''/**
 * @fn CHAattribute
 */''', '''static void forbid_lifetimes(node_st *attr, struct ctinfo info)
{
    if (!ATTRIBUTE_LIFETIMES(attr)) {
        return;
    }
    if (ATTRIBUTE_IS_INHERITED(attr) || ATTRIBUTE_IS_SYNTHESIZED(attr)) {
        CTIobj(CTI_ERROR, true, info, "Inherited or synthesized attributes cannot use lifetimes\\n");
        CCNerrorPhase();
    }
}

/**
 * @fn CHAattribute
 */'''), (CHA, '''    if (ATTRIBUTE_LIFETIMES(node)) {
        if (ATTRIBUTE_IS_INHERITED(node) || ATTRIBUTE_IS_SYNTHESIZED(node)) {
            CTIobj(
                CTI_ERROR, true, info,
                "Inherited or synthesized attributes cannot use lifetimes\\n");
            CCNerrorPhase();
        }
    }
''', '    forbid_lifetimes(node, info);\n')]),
 ('fe-n-res-while', [], [(CEX, '''    for (unsigned int i = 0; i < sizeof(uid_reserved)/sizeof(uid_reserved[0]); i++) {
        if (STReq(ID_UPR(id), uid_reserved[i])) {
            CTI(CTI_ERROR, true, "Uid is reversed: %s\\n", uid_reserved[i]);
        }
    }''', '''    unsigned int i = 0;
    while (i < sizeof(uid_reserved)/sizeof(uid_reserved[0])) {
        const char *word = uid_reserved[i];
        if (STReq(ID_UPR(id), word)) {
            CTI(CTI_ERROR, true, "Uid is reversed: %s\\n", word);
            break;
        }
        i++;
    }''')]),
 ('fe-n-root-order', [], [(CEX, '''        if (!seen_root_node) {
            AST_ROOT_NODE(root) = node;
            seen_root_node = true;
        } else {
            CTI(CTI_ERROR, true, "Double definition of root node");
        }''', '''        if (seen_root_node) {
            CTI(CTI_ERROR, true, "Double definition of root node");
        } else {
            seen_root_node = true;
            AST_ROOT_NODE(root) = node;
        }''')]),
 ('fe-n-root-slot', [], [(CEX, '        if (!seen_root_node) {\n            AST_ROOT_NODE(root) = node;', '        if (AST_ROOT_NODE(root) == NULL) {\n            AST_ROOT_NODE(root) = node;')]),
 ('fe-stadd-next', ['C16'], [(ST, '    if (ste != NULL) {\n        STE_NEXT(new) = ste;', '    if (ste != NULL && STE_VALUE(ste) != val) {\n        STE_NEXT(new) = ste;')]),
 ('fe-stadd-val', ['C16'], [(ST, 'STE_VALUE(new) = val', 'STE_VALUE(new) = key')]),
 ('fe-n-stadd', [], [(ST, '    if (ste != NULL) {\n        STE_NEXT(new) = ste;\n    }', '    STE_NEXT(new) = ste;')]),
 # --- C18
 ('fe-reach-cha', ['C18'], [(CHA, '''    if (ATTRIBUTE_IS_PROPAGATED(node)) {
        TRAVnext(node);
        return node;''', '''    if (ATTRIBUTE_IS_PROPAGATED(node)) {
        return node;''')]),
 ('fe-reach-clt', ['C18'], [(CLT, '    TRAVnext(node);\n    return node;', '    if (ATTRIBUTE_LIFETIMES(node)) {\n        TRAVnext(node);\n    }\n    return node;')]),
 ('fe-reach-mitl-life', ['C18'], [(MITL, '    TRAVend(node);\n    TRAVnext(node);', '    TRAVend(node);')]),
 ('fe-reach-mitl-begin', ['C18'], [(MITL, '    TRAVbegin(node);', '    if (!ILIFETIME_END(node)) TRAVbegin(node);')]),
 ('fe-reach-cex-data', ['C18'], [(CEX, '''    TRAVnext(node);
    return node;
}

node_st *CEXipass''', '''    if (ITRAVDATA_TYPE(node) != AT_link) TRAVnext(node);
    return node;
}

node_st *CEXipass''')]),
 ('fe-reach-bst', ['C18'], [(BST, '''        CTIobj(CTI_ERROR, true, info, "Duplicate name: %s\\n", ID_ORIG(INODE_NAME(node)));
    } else {
        addToST(INODE_NAME(node), node);
    }
    TRAVchildren(node);''', '''        CTIobj(CTI_ERROR, true, info, "Duplicate name: %s\\n", ID_ORIG(INODE_NAME(node)));
    } else {
        addToST(INODE_NAME(node), node);
    }
    if (!INODE_IS_ROOT(node)) TRAVchildren(node);''')]),
 ('fe-reach-twice', ['C18'], [(CEX, '''    TRAVexpr(node);
    if (node_ste''', '''    TRAVexpr(node);
    TRAViattributes(node);
    if (node_ste''')]),
 ('fe-n-reach-explicit', [], [(CEX, '''    checkUID(IPHASE_IPREFIX(node));''', '''    node_st *uid = IPHASE_IPREFIX(node);
    if (uid) checkUID(uid);'''), (CLT, '    TRAVnext(node);\n    return node;', '    return TRAVnext(node);')]),
 ('fe-n-reach-ifnext', [], [(CLT, '    TRAVnext(node);\n    return node;', '    if (ATTRIBUTE_NEXT(node) != NULL) {\n        TRAVopt(ATTRIBUTE_NEXT(node));\n    }\n    return node;')]),
 # --- C21
 ('fe-lt-first', ['C21'], [(AITA, 'curr_action_id = 2;', 'curr_action_id = 1;')]),
 ('fe-lt-order', ['C21'], [(AITA, '    IACTIONS_ACTION_ID(node) = curr_action_id++;\n    node_st *action = STlookup(ste, IACTIONS_REFERENCE(node));', '    node_st *action = STlookup(ste, IACTIONS_REFERENCE(node));'), (AITA, '        active_phases = nested.outer;\n    }', '        active_phases = nested.outer;\n    }\n    IACTIONS_ACTION_ID(node) = curr_action_id++;')]),
 ('fe-lt-nextfirst', ['C21'], [(AITA, '''        struct active_phase nested = {action, active_phases};
        active_phases = &nested;
        TRAViactions(action);
        active_phases = nested.outer;
    }
    TRAVnext(node);''', '''        TRAVnext(node);
        struct active_phase nested = {action, active_phases};
        active_phases = &nested;
        TRAViactions(action);
        active_phases = nested.outer;
    } else TRAVnext(node);''')]),
 ('fe-lt-noinc', ['C21'], [(AITA, 'IACTIONS_ACTION_ID(node) = curr_action_id++;', 'IACTIONS_ACTION_ID(node) = curr_action_id;'), (AITA, '    TRAVnext(node);\n    return node;', '    if (NODE_TYPE(action) != NT_IPHASE) curr_action_id++;\n    TRAVnext(node);\n    return node;')]),
 ('fe-lt-cyclenest', ['C21'], [(AITA, '        TRAViactions(action);\n        active', '        if (!IPHASE_IS_CYCLE(action)) TRAViactions(action);\n        active')]),
 ('fe-lt-uid', ['C21'], [(MITL, 'CompareID(ITRAVERSAL_NAME(action_lookup), curr_target) || CompareID(ITRAVERSAL_IPREFIX(action_lookup), curr_target)', 'CompareID(ITRAVERSAL_NAME(action_lookup), curr_target)')]),
 ('fe-lt-case', ['C21'], [(MITL, 'STReq(ID_LWR(id), ID_LWR(other_id))', 'STReq(ID_ORIG(id), ID_ORIG(other_id))')]),
 ('fe-lt-goon', ['C21'], [(MITL, '''            last_node = action_lookup;
            last_action = node;
            return node;''', '''            last_node = action_lookup;
            last_action = node;
            return TRAVnext(node);''')]),
 ('fe-lt-next', ['C21'], [(MITL, 'LIFETIME_RANGE_NEXT_ACTION_ID(node) = LastActionID(last_action) + 1;', 'LIFETIME_RANGE_NEXT_ACTION_ID(node) = IACTIONS_ACTION_ID(last_action) + 1;')]),
 ('fe-lt-noplus', ['C21'], [(MITL, 'LIFETIME_RANGE_NEXT_ACTION_ID(node) = IACTIONS_ACTION_ID(last_action) + 1;', 'LIFETIME_RANGE_NEXT_ACTION_ID(node) = IACTIONS_ACTION_ID(last_action);')]),
 ('fe-lt-last', ['C21'], [(MITL, '''        while (IACTIONS_NEXT(action)) {
            action = IACTIONS_NEXT(action);
        }
''', '')]),
 ('fe-lt-last1', ['C21'], [(MITL, '        while (IACTIONS_NEXT(action)) {', '        if (IACTIONS_NEXT(action)) {')]),
 ('fe-lt-nestscope', ['C21'], [(MITL, '            TRAViactions(action);\n        }\n    }\n    if (last_action) {', '            TRAViactions(AST_START_PHASE(ast));\n        }\n    }\n    if (last_action) {')]),
 ('fe-lt-stale', ['C21'], [(MITL, '            last_action = NULL;\n            last_node = NULL;\n            TRAViactions(action);', '            TRAViactions(action);')]),
 ('fe-lt-dotted', ['C21'], [(MITL, '''        TRAViactions(AST_START_PHASE(ast));
    } else {''', '''        TRAViactions(AST_START_PHASE(ast));
        return node;
    } else {''')]),
 ('fe-lt-missing', ['C21'], [(MITL, 'CTIobj(CTI_ERROR, true, info, "Lifetime does not target a valid action.");', 'CTIobj(CTI_WARN, true, info, "Lifetime does not target a valid action.");')]),
 ('fe-lt-nophase', ['C21'], [(MITL, '''            return node;
        }
        TRAViactions(action_lookup);''', '''            return node;
        }
        if (IPHASE_IS_CYCLE(action_lookup)) TRAViactions(action_lookup);''')]),
 ('fe-n-lt-preinc', [], [(AITA, 'curr_action_id = 2;', 'curr_action_id = 1;'), (AITA, 'IACTIONS_ACTION_ID(node) = curr_action_id++;', 'IACTIONS_ACTION_ID(node) = ++curr_action_id;')]),
 ('fe-n-lt-split', [], [(AITA, 'IACTIONS_ACTION_ID(node) = curr_action_id++;', 'uint64_t id = curr_action_id;\n    curr_action_id = id + 1;\n    IACTIONS_ACTION_ID(node) = id;')]),
 ('fe-n-lt-names', [], [(MITL, '''    if (NODE_TYPE(action_lookup) == NT_IPHASE) {
        if (CompareID(IPHASE_NAME(action_lookup), curr_target) || CompareID(IPHASE_IPREFIX(action_lookup), curr_target)) {
            last_action = node;
            last_node = action_lookup;
            return node;
        }
        TRAViactions(action_lookup);
    } else if (NODE_TYPE(action_lookup) == NT_IPASS) {
        if (CompareID(IPASS_NAME(action_lookup), curr_target) || CompareID(IPASS_IPREFIX(action_lookup), curr_target)) {
            last_action = node;
            last_node = action_lookup;
            return node;
        }
    } else if''', '''    node_st *name = NULL, *uid = NULL;
    if (NODE_TYPE(action_lookup) == NT_IPHASE) {
        name = IPHASE_NAME(action_lookup);
        uid = IPHASE_IPREFIX(action_lookup);
    } else if (NODE_TYPE(action_lookup) == NT_IPASS) {
        name = IPASS_NAME(action_lookup);
        uid = IPASS_IPREFIX(action_lookup);
    }
    if (CompareID(name, curr_target) || CompareID(uid, curr_target)) {
        last_action = node;
        last_node = action_lookup;
        return node;
    }
    if (NODE_TYPE(action_lookup) == NT_IPHASE) {
        TRAViactions(action_lookup);
    } else if''')]),
 ('fe-n-lt-recursive', [], [(MITL, '''    node_st *target = STlookup(ste, IACTIONS_REFERENCE(action));
    while (target && NODE_TYPE(target) == NT_IPHASE && IPHASE_IACTIONS(target)) {
        action = IPHASE_IACTIONS(target);
        while (IACTIONS_NEXT(action)) {
            action = IACTIONS_NEXT(action);
        }
        target = STlookup(ste, IACTIONS_REFERENCE(action));
    }
    return IACTIONS_ACTION_ID(action);''', '''    node_st *target = STlookup(ste, IACTIONS_REFERENCE(action));
    if (!target || NODE_TYPE(target) != NT_IPHASE || !IPHASE_IACTIONS(target)) {
        return IACTIONS_ACTION_ID(action);
    }
    node_st *last = IPHASE_IACTIONS(target);
    for (; IACTIONS_NEXT(last); last = IACTIONS_NEXT(last)) {
    }
    return LastActionID(last);''')]),
 ('fe-n-lt-range', [], [(MITL, '''        LIFETIME_RANGE_ACTION_ID(node) = IACTIONS_ACTION_ID(last_action);
        if (NODE_TYPE(last_node) == NT_IPHASE) {
            LIFETIME_RANGE_NEXT_ACTION_ID(node) = LastActionID(last_action) + 1;
        } else {
            LIFETIME_RANGE_NEXT_ACTION_ID(node) = IACTIONS_ACTION_ID(last_action) + 1;
        }''', '''        int id = IACTIONS_ACTION_ID(last_action);
        LIFETIME_RANGE_ACTION_ID(node) = id;
        LIFETIME_RANGE_NEXT_ACTION_ID(node) = 1 + (NODE_TYPE(last_node) == NT_IPHASE ? LastActionID(last_action) : id);''')]),
 # --- reachability
 ('rc-find-all', ['C36'], [('cocogen/frontend/reachability.c', """            const int reach = reachability_matrix[trav_index][INODE_INDEX(inode)];
            if (reach && reach != RCB_NODE_NOT_HANDLED) {
                child_is_reachable = true;
            } else {
                TRAVichildren(inode);
            }
        }
    }

    TRAVleft""", """            const int reach = reachability_matrix[trav_index][INODE_INDEX(inode)];
            if (reach && reach != RCB_NODE_NOT_HANDLED) {
                child_is_reachable = true;
            }
        }
    }

    TRAVleft""")]),
 ('rc-user-only', ['C36'], [('cocogen/frontend/reachability.c', """            if (reach && reach != RCB_NODE_NOT_HANDLED) {
                child_is_reachable = true;
            } else {
                TRAVichildren(inode);
            }
        }
    }
    // Stop""", """            if (reach == RCB_NODE_HANDLED_BY_USER) {
                child_is_reachable = true;
            } else if (reach != RCB_NODE_HANDLED_BY_TRAV) {
                TRAVichildren(inode);
            }
        }
    }
    // Stop""")]),
 ('rc-visited-early', ['C36'], [('cocogen/frontend/reachability.c', '        memset(child_visited, 0, sizeof(int) * AST_NUM_NODES(ast));\n        TRAVichildren(node);', '        if (INODE_INDEX(node) == 0) {\n            memset(child_visited, 0, sizeof(int) * AST_NUM_NODES(ast));\n        }\n        TRAVichildren(node);')]),
 ('rc-flag-kept', ['C36'], [('cocogen/frontend/reachability.c', '        child_is_reachable = false;\n        // To track', '        // To track')]),
 ('rc-nonext', ['C36'], [('cocogen/frontend/reachability.c', '    if (!child_is_reachable) {\n        TRAVnext(node);', '    if (!child_is_reachable && NODE_TYPE(inode) == NT_INODE) {\n        TRAVnext(node);')]),
 ('rc-left', ['C36'], [('cocogen/frontend/reachability.c', '    TRAVleft(node);\n    TRAVright(node);', '    TRAVleft(node);\n    if (is_traversal_nodes) {\n        TRAVright(node);\n    }')]),
 ('rc-first', ['C36'], [('cocogen/frontend/reachability.c', 'for (int i = 0; i < num_nodes; i++) {\n            reach', 'for (int i = 1; i < num_nodes; i++) {\n            reach')]),
 ('rc-trav-next', ['C36'], [('cocogen/frontend/reachability.c', '        TRAVinodes(ast);\n    }\n\n    TRAVnext(node);', '        TRAVinodes(ast);\n        TRAVnext(node);\n    }\n')]),
 ('rc-mode', ['C36'], [('cocogen/frontend/reachability.c', '        is_traversal_nodes = false;\n', '')]),
 ('rc-n-helper', [], [('cocogen/frontend/reachability.c', """        if (!child_visited[INODE_INDEX(inode)]) {
            child_visited[INODE_INDEX(inode)] = 1;
            const int reach = reachability_matrix[trav_index][INODE_INDEX(inode)];
            if (reach && reach != RCB_NODE_NOT_HANDLED) {
                child_is_reachable = true;
            } else {
                TRAVichildren(inode);
            }
        }
    }
    // Stop""", """        search(inode);
    }
    // Stop"""), ('cocogen/frontend/reachability.c', 'node_st *RCBchild(node_st *node)\n', """static void search(node_st *inode)
{
    const int index = INODE_INDEX(inode);
    if (child_visited[index]) {
        return;
    }
    child_visited[index] = 1;
    switch (reachability_matrix[trav_index][index]) {
    case RCB_NODE_HANDLED_BY_USER:
    case RCB_NODE_HANDLED_BY_TRAV:
        child_is_reachable = true;
        break;
    default:
        TRAVichildren(inode);
    }
}

node_st *RCBchild(node_st *node)
""")]),
 ('rc-n-early', [], [('cocogen/frontend/reachability.c', '    // Stop the search if we already found that a child is reachable.\n    if (!child_is_reachable) {\n        TRAVnext(node);\n    }\n    return node;', '    if (child_is_reachable) {\n        return node;\n    }\n    TRAVnext(node);\n    return node;')]),
 ('rc-n-row', [], [('cocogen/frontend/reachability.c', """        for (int i = 0; i < num_nodes; i++) {
            reachability_matrix[trav_index][i] = RCB_NODE_HANDLED_BY_USER;
        }""", """        int *row = reachability_matrix[trav_index];
        int i = 0;
        while (i < num_nodes) {
            row[i++] = RCB_NODE_HANDLED_BY_USER;
        }""")]),
 ('rc-n-calloc', [], [('cocogen/frontend/reachability.c', """        memset(child_visited, 0, sizeof(int) * AST_NUM_NODES(ast));
        TRAVich""", """        for (int i = 0; i < AST_NUM_NODES(ast); i++) {
            child_visited[i] = 0;
        }
        TRAVich""")]),
]
