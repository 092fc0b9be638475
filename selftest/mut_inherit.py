N = 'cocogen/frontend/nodesets/nodeset_child_table.c'
F = 'cocogen/frontend/nodesets/propagate_attributes.c'
C = ['C38']
MUTANTS = [
 ('in-no-lookup', C, [(N, "    if (HTlookup(DATA_NCT_GET()->added_refs, reference)) {\n        return;\n    }\n", "")]),
 ('in-no-insert', C, [(N, "    HTinsert(DATA_NCT_GET()->added_refs, reference, (void *) 1);\n", "")]),
 ('in-insert-zero', C, [(N, "    HTinsert(DATA_NCT_GET()->added_refs, reference, (void *) 1);", "    HTinsert(DATA_NCT_GET()->added_refs, reference, NULL);")]),
 ('in-last-first-only', C, [(N, "        INODESET_CHILDREN_TABLE(DATA_NCT_GET()->curr_set) = new_node;\n    } else {", "        INODESET_CHILDREN_TABLE(DATA_NCT_GET()->curr_set) = new_node;\n        DATA_NCT_GET()->last_entry = new_node;\n    } else {"),
                            (N, "    DATA_NCT_GET()->last_entry = new_node;\n    HTinsert", "    HTinsert")]),
 ('in-head-always', C, [(N, "    if (DATA_NCT_GET()->last_entry == NULL) {", "    if (DATA_NCT_GET()->last_entry == NULL || !DATA_NCT_GET()->curr_set) {"),
                        (N, "        NODESET_CHILD_ENTRY_NEXT(DATA_NCT_GET()->last_entry) = new_node;", "        INODESET_CHILDREN_TABLE(DATA_NCT_GET()->curr_set) = new_node;")]),
 ('in-list-skip', C, [(N, "         entry = NODESET_CHILD_ENTRY_NEXT(entry)) {", "         entry = NODESET_CHILD_ENTRY_NEXT(entry) ? NODESET_CHILD_ENTRY_NEXT(NODESET_CHILD_ENTRY_NEXT(entry)) : NULL) {")]),
 ('in-list-first', C, [(N, "        add_inheritance_entry(NODESET_CHILD_ENTRY_REFERENCE(entry));", "        add_inheritance_entry(NODESET_CHILD_ENTRY_REFERENCE(INODESET_CHILDREN_TABLE(nodeset)));")]),
 ('in-built-nested', C, [(N, "        if (!is_root) {\n            add_inheritance_entry_list(node);\n        }", "        (void) is_root;")]),
 ('in-built-root', C, [(N, "        if (!is_root) {\n            add_inheritance_entry_list(node);\n        }", "        if (is_root) {\n            add_inheritance_entry_list(node);\n        }")]),
 ('in-rec-none', C, [(N, "            CTIobj(CTI_ERROR, true, info, \"Recursion in setexpr\\n\");\n            CCNerrorAction();\n", "")]),
 ('in-rec-late', C, [(N, "        HTNCT_insert(DATA_NCT_GET()->built_tables, node, ht_working);\n", "")]),
 ('in-finish', C, [(N, "    HTNCT_insert(DATA_NCT_GET()->built_tables, node, ht_finished);\n", "")]),
 ('in-working-finished', C, [(N, "    ht_working = 1,", "    ht_working = 2,")]),
 ('in-nested-refs', C, [(N, "            htable_st *prev_refs = DATA_NCT_GET()->added_refs;\n            node_st *prev_entry = DATA_NCT_GET()->last_entry;\n            // Set data\n            DATA_NCT_GET()->curr_set = node;\n            DATA_NCT_GET()->added_refs = HTnew_Ptr(htable_size);",
                            "            htable_st *prev_refs = DATA_NCT_GET()->added_refs;\n            node_st *prev_entry = DATA_NCT_GET()->last_entry;\n            // Set data\n            DATA_NCT_GET()->curr_set = node;"),
                        (N, "            DATA_NCT_GET()->curr_set = prev;\n            HTdelete(DATA_NCT_GET()->added_refs);\n", "            DATA_NCT_GET()->curr_set = prev;\n")]),
 ('in-nested-last', C, [(N, "            DATA_NCT_GET()->last_entry = prev_entry;\n", "            DATA_NCT_GET()->last_entry = NULL;\n            (void) prev_entry;\n")]),
 ('in-nested-last0', C, [(N, "            DATA_NCT_GET()->added_refs = HTnew_Ptr(htable_size);\n            DATA_NCT_GET()->last_entry = NULL;\n\n            TRAVexpr(node);\n\n            // Restore",
                             "            DATA_NCT_GET()->added_refs = HTnew_Ptr(htable_size);\n\n            TRAVexpr(node);\n\n            // Restore")]),
 ('in-nested-cur', C, [(N, "            DATA_NCT_GET()->curr_set = prev;\n", "            DATA_NCT_GET()->curr_set = prev ? prev : node;\n            DATA_NCT_GET()->curr_set = node;\n")]),
 ('in-nested-early', C, [(N, "            // Restore data\n", "            add_inheritance_entry_list(node);\n            // Restore data\n"), (N, "            // Add nodesets to parent nodeset\n            add_inheritance_entry_list(node);\n", "")]),
 ('in-root-cur', C, [(N, "            // Clear data\n            DATA_NCT_GET()->curr_set = NULL;\n", "            // Clear data\n")]),
 ('in-next-nested', C, [(N, "    if (is_root) {\n        TRAVnext(node);", "    if (is_root || is_built == ht_finished) {\n        TRAVnext(node);")]),
 ('in-ref-deep', C, [(N, "    TRAVdo(reference);\n", "")]),
 ('in-ref-self', C, [(N, "    add_inheritance_entry(reference);\n    return node;", "    return node;")]),
 # propagation
 ('pa-early', C, [(F, "        if (ATTRIBUTE_IS_PROPAGATED(attribute)) {\n            continue;", "        if (ATTRIBUTE_IS_PROPAGATED(attribute)) {\n            break;")]),
 ('pa-prop', C, [(F, "        // Skip propagated attributes\n        if (ATTRIBUTE_IS_PROPAGATED(attribute)) {\n            continue;\n        }\n", "")]),
 ('pa-mark', C, [(F, "    ATTRIBUTE_IS_PROPAGATED(new_attribute) = true;\n", "")]),
 ('pa-lost', C, [(F, "    ATTRIBUTE_NEXT(new_attribute) = *attribute_list;\n", "    ATTRIBUTE_NEXT(new_attribute) = NULL;\n")]),
 ('pa-nonext', C, [(F, "    ATTRIBUTE_NEXT(new_attribute) = *attribute_list;\n", "")]),
 ('pa-share', C, [(F, "CCNcopy(attribute);", "attribute;")]),
 ('pa-ctor-skip', C, [(F, "        propagate_attribute(node, attribute);", "        if (!ATTRIBUTE_IN_CONSTRUCTOR(attribute) || NODE_TYPE(node) == NT_INODE) {\n            propagate_attribute(node, attribute);\n        }")]),
 ('pa-inh-skip', C, [(F, "        if (ATTRIBUTE_IS_PROPAGATED(attribute)) {", "        if (ATTRIBUTE_IS_PROPAGATED(attribute) || ATTRIBUTE_IS_INHERITED(attribute)) {")]),
 ('pa-case', C, [(F, "        if (STReq(ID_LWR(ATTRIBUTE_NAME(attribute)),\n                  ID_LWR(ATTRIBUTE_NAME(new_attribute)))) {", "        if (STReq(ID_ORIG(ATTRIBUTE_NAME(attribute)),\n                  ID_ORIG(ATTRIBUTE_NAME(new_attribute)))) {")]),
 ('pa-nodeset-exc', C, [(F, "            if (NODE_TYPE(node) == NT_INODE &&\n                check_classic", "            if (check_classic")]),
 ('pa-exc-lost', C, [(F, "                exists_exception = true;\n", "")]),
 ('pa-exc-first', C, [(F, "    return exists_exception;", "    return exists_exception && first_attr != NULL && ATTRIBUTE_NEXT(first_attr) == NULL;")]),
 ('pa-syn', C, [(F, "    if (ATTRIBUTE_IS_INHERITED(parent_attr) ||\n        ATTRIBUTE_IS_SYNTHESIZED(parent_attr)) {", "    if (ATTRIBUTE_IS_INHERITED(parent_attr)) {")]),
 ('pa-inh', C, [(F, "    if (ATTRIBUTE_IS_INHERITED(parent_attr) ||\n        ATTRIBUTE_IS_SYNTHESIZED(parent_attr)) {", "    if (ATTRIBUTE_IS_INHERITED(child_attr) ||\n        ATTRIBUTE_IS_SYNTHESIZED(parent_attr)) {")]),
 ('pa-ctor', C, [(F, "    if (!ATTRIBUTE_IN_CONSTRUCTOR(child_attr)) {", "    if (!ATTRIBUTE_IN_CONSTRUCTOR(child_attr) && !ATTRIBUTE_IN_CONSTRUCTOR(parent_attr)) {")]),
 ('pa-child-inh', C, [(F, "    } else if (ATTRIBUTE_IS_INHERITED(child_attr) ||\n               ATTRIBUTE_IS_SYNTHESIZED(child_attr) ||", "    } else if (ATTRIBUTE_IS_SYNTHESIZED(child_attr) ||")]),
 ('pa-type', C, [(F, "    if (ATTRIBUTE_TYPE(a) != ATTRIBUTE_TYPE(b)) {\n        return false;\n    }\n", "")]),
 ('pa-type-user', C, [(F, "        ATTRIBUTE_TYPE(a) == AT_user) {", "        ATTRIBUTE_TYPE(a) == AT_string) {")]),
 ('pa-type-enum', C, [(F, " || ATTRIBUTE_TYPE(a) == AT_link_or_enum ||", " ||")]),
 ('pa-type-none', C, [(F, "               !compare_attribute_types(parent_attr, child_attr)) {", "               compare_attribute_types(parent_attr, child_attr) == 2) {")]),
 ('pa-childname', C, [(F, "    if (NODE_TYPE(node) == NT_INODE) {\n        check_existing_child(node, attribute);\n    }\n", "")]),
 ('pa-childname-case', C, [(F, "        if (STReq(ID_LWR(CHILD_NAME(child)),\n                  ID_LWR(ATTRIBUTE_NAME(new_attribute)))) {", "        if (STReq(ID_ORIG(CHILD_NAME(child)),\n                  ID_ORIG(ATTRIBUTE_NAME(new_attribute)))) {")]),
 ('pa-childname-first', C, [(F, "         child = CHILD_NEXT(child)) {", "         child = NULL) {")]),
 ('pa-cur-late', C, [(F, "    DATA_PRA_GET()->curr_nodeset = node;\n    TRAVchildren_table(node);", "    TRAVchildren_table(node);\n    DATA_PRA_GET()->curr_nodeset = node;")]),
 ('pa-no-table', C, [(F, "    TRAVchildren_table(node);\n    TRAVexpr", "    TRAVexpr")]),
 ('pa-lit-kids', C, [(F, "    propagate_attributes(entry);\n    TRAVchildren(node);", "    propagate_attributes(entry);\n    TRAVleft(node);")]),
 # behaviour kept
 ('in-n-merge', [], [(N, """        if (is_root) { // No previous travdata to worry about
            // Set data
            DATA_NCT_GET()->curr_set = node;
            DATA_NCT_GET()->added_refs = HTnew_Ptr(htable_size);
            DATA_NCT_GET()->last_entry = NULL;

            TRAVexpr(node);

            // Clear data
            DATA_NCT_GET()->curr_set = NULL;
            HTdelete(DATA_NCT_GET()->added_refs);
            DATA_NCT_GET()->added_refs = NULL;
            DATA_NCT_GET()->last_entry = NULL;
        } else { // Restore old travdata when finished
""", "        {\n"), (N, """            // Add nodesets to parent nodeset
            add_inheritance_entry_list(node);
""", """            if (!is_root) {
                add_inheritance_entry_list(node);
            }
""")]),
 ('in-n-while', [], [(N, """    for (node_st *entry = INODESET_CHILDREN_TABLE(nodeset); entry != NULL;
         entry = NODESET_CHILD_ENTRY_NEXT(entry)) {
        add_inheritance_entry(NODESET_CHILD_ENTRY_REFERENCE(entry));
    }""", """    node_st *entry = INODESET_CHILDREN_TABLE(nodeset);
    while (entry) {
        node_st *reference = NODESET_CHILD_ENTRY_REFERENCE(entry);
        add_inheritance_entry(reference);
        entry = NODESET_CHILD_ENTRY_NEXT(entry);
    }""")]),
 ('in-n-switch', [], [(N, """    if (is_built != ht_null) {
        // Detect recursion in setexpr
        if (is_built == ht_working) {""", """    if (is_built == ht_working || is_built == ht_finished) {
        // Detect recursion in setexpr
        if (is_built != ht_finished) {""")]),
 ('pa-n-break', [], [(F, "                exists_exception = true;\n                continue;\n", "                exists_exception = true;\n                break;\n")]),
 ('pa-n-return', [], [(F, "                exists_exception = true;\n                continue;\n", "                return true;\n")]),
 ('pa-n-list', [], [(F, """    node_st **attribute_list;
    if (NODE_TYPE(node) == NT_INODE) {
        attribute_list = &INODE_IATTRIBUTES(node);
    } else {
        assert(NODE_TYPE(node) == NT_INODESET);
        attribute_list = &INODESET_IATTRIBUTES(node);
    }

    bool exists_exception = check_existing_attributes(node, *attribute_list, attribute);
""", """    bool is_node = NODE_TYPE(node) == NT_INODE;
    node_st *attributes = is_node ? INODE_IATTRIBUTES(node) : INODESET_IATTRIBUTES(node);

    bool exists_exception = check_existing_attributes(node, attributes, attribute);
"""), (F, """    ATTRIBUTE_NEXT(new_attribute) = *attribute_list;
    *attribute_list = new_attribute;
""", """    ATTRIBUTE_NEXT(new_attribute) = attributes;
    if (is_node) {
        INODE_IATTRIBUTES(node) = new_attribute;
    } else {
        INODESET_IATTRIBUTES(node) = new_attribute;
    }
""")]),
 ('pa-n-flip', [], [(F, """        if (STReq(ID_LWR(ATTRIBUTE_NAME(attribute)),
                  ID_LWR(ATTRIBUTE_NAME(new_attribute)))) {
            if (NODE_TYPE(node) == NT_INODE &&
                check_classic_exception(node, new_attribute, attribute)) {
                exists_exception = true;
                continue;
            }
""", """        if (!STReq(ID_LWR(ATTRIBUTE_NAME(new_attribute)),
                  ID_LWR(ATTRIBUTE_NAME(attribute)))) {
            continue;
        }
        {
            if (NODE_TYPE(node) != NT_INODESET &&
                check_classic_exception(node, new_attribute, attribute)) {
                exists_exception |= true;
                continue;
            }
""")]),
 ('pa-n-type', [], [(F, """    if (ATTRIBUTE_TYPE(a) == AT_link || ATTRIBUTE_TYPE(a) == AT_link_or_enum ||
        ATTRIBUTE_TYPE(a) == AT_user) {
        return STReq(ID_ORIG(ATTRIBUTE_TYPE_REFERENCE(a)),
                     ID_ORIG(ATTRIBUTE_TYPE_REFERENCE(b)));
    }

    return true;""", """    switch (ATTRIBUTE_TYPE(a)) {
    case AT_link:
    case AT_link_or_enum:
    case AT_user:
        return STReq(ID_ORIG(ATTRIBUTE_TYPE_REFERENCE(b)),
                     ID_ORIG(ATTRIBUTE_TYPE_REFERENCE(a)));
    default:
        return true;
    }""")]),
]
