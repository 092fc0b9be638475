F = 'cocogen/frontend/check_product_rules.c'
MUTANTS = [
 ('pr-flag-syn', ['C37'], [(F, "            !ATTRIBUTE_IS_SYNTHESIZED(attribute)) {", "            ATTRIBUTE_IS_INHERITED(attribute)) {")]),
 ('pr-flag-inh', ['C37'], [(F, "                   !ATTRIBUTE_IS_INHERITED(attribute)) {", "                   !ATTRIBUTE_IS_INHERITED(attribute) && NODE_TYPE(ref_node) == NT_INODE) {")]),
 ('pr-flag-none', ['C37'], [(F, "    if (in_rule) {", "    if (in_rule && ATTRIBUTE_REFERENCE_INODE(node) == NULL) {")]),
 ('pr-dep-rule', ['C37'], [(F, "check_attribute_reference(EQUATION_DEPENDENCY_IATTRIBUTE(node), false);", "check_attribute_reference(EQUATION_DEPENDENCY_IATTRIBUTE(node), true);")]),
 ('pr-no-dep', ['C37'], [(F, "    check_attribute_reference(EQUATION_DEPENDENCY_IATTRIBUTE(node), false);\n", "")]),
 ('pr-no-rule', ['C37'], [(F, "check_attribute_reference(EQUATION_RULE(node), true);", "check_attribute_reference(EQUATION_RULE(node), false);")]),
 ('pr-cache-node', ['C37'], [(F, "        HTfind_nested(DATA_CPR_GET()->found_children, DATA_CPR_GET()->curr_node,\n                      ID_LWR(child_id));",
                              "        HTfind_nested(DATA_CPR_GET()->found_children, child_id,\n                      ID_LWR(child_id));")]),
 ('pr-cache-attr', ['C37'], [(F, "            HTinsert_nested(DATA_CPR_GET()->found_attributes, node,\n                            ID_LWR(attribute_id), can);",
                              "            HTinsert_nested(DATA_CPR_GET()->found_attributes, DATA_CPR_GET()->curr_node,\n                            ID_LWR(attribute_id), can);")]),
 ('pr-cache-lookup-scope', ['C37'], [(F, "    node_st *cached = HTfind_nested(DATA_CPR_GET()->found_attributes, node,", "    node_st *cached = HTfind_nested(DATA_CPR_GET()->found_attributes, DATA_CPR_GET()->curr_node,")]),
 ('pr-cache-shared', ['C37'], [(F, "            HTinsert_nested(DATA_CPR_GET()->found_children,", "            HTinsert_nested(DATA_CPR_GET()->found_attributes,"),
                               (F, "        HTfind_nested(DATA_CPR_GET()->found_children, DATA", "        HTfind_nested(DATA_CPR_GET()->found_attributes, DATA")]),
 ('pr-child-case', ['C37'], [(F, "STReq(ID_LWR(CHILD_NAME(can)), ID_LWR(child_id))", "STReq(ID_ORIG(CHILD_NAME(can)), ID_ORIG(child_id))")]),
 ('pr-attr-first', ['C37'], [(F, "            HTinsert_nested(DATA_CPR_GET()->found_attributes, node,\n                            ID_LWR(attribute_id), can);\n            return can;\n        }",
                              "            HTinsert_nested(DATA_CPR_GET()->found_attributes, node,\n                            ID_LWR(attribute_id), can);\n            return can;\n        }\n        if (ATTRIBUTE_IS_PROPAGATED(can)) {\n            break;\n        }")]),
 ('pr-rule-nodename', ['C37'], [(F, "        if ((node_name == NULL && can_node == NULL) ||", "        if (node_name == NULL ||")]),
 ('pr-rule-attr', ['C37'], [(F, "            if (STReq(ID_LWR(ATTRIBUTE_REFERENCE_IATTRIBUTE(can)),\n                      ID_LWR(attribute_name))) {\n                return can;\n            }", "            return can;")]),
 ('pr-rule-childname', ['C37'], [(F, "             STReq(ID_LWR(node_name), ID_LWR(can_node)))) {", "             !STReq(ID_LWR(attribute_name), ID_LWR(can_node)))) {")]),
 ('pr-rule-first', ['C37'], [(F, "                return can;\n            }\n        }\n    }", "                return can;\n            }\n            return NULL;\n        }\n    }")]),
 ('pr-child-nodeset', ['C37'], [(F, "    node_st *attributes;\n    if (NODE_TYPE(ref_node) == NT_INODE) {", "    node_st *attributes = NULL;\n    if (NODE_TYPE(ref_node) == NT_INODE) {"),
                                (F, "        assert(NODE_TYPE(ref_node) == NT_INODESET);\n        attributes = INODESET_IATTRIBUTES(ref_node);\n", "        assert(NODE_TYPE(ref_node) == NT_INODESET);\n")]),
 ('pr-child-this', ['C37'], [(F, "                               CHILD_NAME(node), ATTRIBUTE_NAME(attribute));", "                               NULL, ATTRIBUTE_NAME(attribute));")]),
 ('pr-child-stop', ['C37'], [(F, "                               CHILD_NAME(node), ATTRIBUTE_NAME(attribute));\n        }", "                               CHILD_NAME(node), ATTRIBUTE_NAME(attribute));\n            break;\n        }")]),
 ('pr-child-flag', ['C37'], [(F, "        if (ATTRIBUTE_IS_INHERITED(attribute)) {", "        if (ATTRIBUTE_IS_INHERITED(attribute) && !ATTRIBUTE_IS_PROPAGATED(attribute)) {")]),
 ('pr-attr-flag', ['C37'], [(F, "    if (ATTRIBUTE_IS_SYNTHESIZED(node)) {", "    if (ATTRIBUTE_IS_SYNTHESIZED(node) && !ATTRIBUTE_IS_PROPAGATED(node)) {")]),
 ('pr-curr-late', ['C37'], [(F, "    DATA_CPR_GET()->curr_node = node;\n    TRAViequations(node);", "    TRAViequations(node);\n    DATA_CPR_GET()->curr_node = node;")]),
 ('pr-curr-once', ['C37'], [(F, "    DATA_CPR_GET()->curr_node = node;\n", "    if (DATA_CPR_GET()->curr_node == NULL) {\n        DATA_CPR_GET()->curr_node = node;\n    }\n")]),
 ('pr-type-ref', ['C37'], [(F, "        ATTRIBUTE_REFERENCE_NODE_TYPE(node) = CHILD_TYPE_REFERENCE(child);", "        ATTRIBUTE_REFERENCE_NODE_TYPE(node) = INODE_NAME(DATA_CPR_GET()->curr_node);")]),
 ('pr-child-ref', ['C37'], [(F, "        ATTRIBUTE_REFERENCE_CHILD_REFERENCE(node) = child;\n", "")]),
 ('pr-attr-missing', ['C37'], [(F, "    if (attribute == NULL) {\n        struct", "    if (attribute == NULL && in_rule) {\n        struct")]),
 ('pr-child-missing', ['C37'], [(F, "        if (child == NULL) {\n            struct ctinfo info;", "        if (child == NULL && !in_rule) {\n            return;\n        }\n        if (child == NULL) {\n            struct ctinfo info;")]),
 ('pr-this-set', ['C37'], [(F, "        ref_node =\n            STlookup(DATA_CPR_GET()->symboltable, CHILD_TYPE_REFERENCE(child));", "        ref_node =\n            STlookup(DATA_CPR_GET()->symboltable, CHILD_NAME(child));")]),
 # behaviour kept
 ('pr-n-nocache', [], [(F, """    node_st *cached =
        HTfind_nested(DATA_CPR_GET()->found_children, DATA_CPR_GET()->curr_node,
                      ID_LWR(child_id));
    if (cached != NULL) {
        return cached;
    }
""", "")]),
 ('pr-n-while', [], [(F, """    for (node_st *can = attr_list; can != NULL; can = ATTRIBUTE_NEXT(can)) {
        if (STReq(ID_LWR(ATTRIBUTE_NAME(can)), ID_LWR(attribute_id))) {
            HTinsert_nested(DATA_CPR_GET()->found_attributes, node,
                            ID_LWR(attribute_id), can);
            return can;
        }
    }

    return NULL;""", """    node_st *can = attr_list;
    while (can && !STReq(ID_LWR(attribute_id), ID_LWR(ATTRIBUTE_NAME(can)))) {
        can = ATTRIBUTE_NEXT(can);
    }
    if (can) {
        HTinsert_nested(DATA_CPR_GET()->found_attributes, node, ID_LWR(attribute_id), can);
    }
    return can;""")]),
 ('pr-n-result', [], [(F, """    for (node_st *can = INODE_ICHILDREN(DATA_CPR_GET()->curr_node); can != NULL;
         can = CHILD_NEXT(can)) {
        if (STReq(ID_LWR(CHILD_NAME(can)), ID_LWR(child_id))) {
            HTinsert_nested(DATA_CPR_GET()->found_children,
                            DATA_CPR_GET()->curr_node, ID_LWR(child_id), can);
            return can;
        }
    }

    return NULL;""", """    node_st *res = NULL;
    for (node_st *can = INODE_ICHILDREN(DATA_CPR_GET()->curr_node); can != NULL;
         can = CHILD_NEXT(can)) {
        if (STReq(ID_LWR(CHILD_NAME(can)), ID_LWR(child_id))) {
            HTinsert_nested(DATA_CPR_GET()->found_children,
                            DATA_CPR_GET()->curr_node, ID_LWR(child_id), can);
            res = can;
            break;
        }
    }

    return res;""")]),
 ('pr-n-match', [], [(F, """        // Check same node (NULL == this)
        if ((node_name == NULL && can_node == NULL) ||
            (node_name != NULL && can_node != NULL &&
             STReq(ID_LWR(node_name), ID_LWR(can_node)))) {
            // Check same attribute
            if (STReq(ID_LWR(ATTRIBUTE_REFERENCE_IATTRIBUTE(can)),
                      ID_LWR(attribute_name))) {
                return can;
            }
        }""", """        bool same_node;
        if (node_name == NULL || can_node == NULL) {
            same_node = node_name == can_node;
        } else {
            same_node = STReq(ID_LWR(node_name), ID_LWR(can_node));
        }
        if (!same_node) {
            continue;
        }
        if (STReq(ID_LWR(ATTRIBUTE_REFERENCE_IATTRIBUTE(can)), ID_LWR(attribute_name))) {
            return can;
        }""")]),
 ('pr-n-bool', [], [(F, "static node_st *find_product_rule(", "static bool find_product_rule("), (F, "                return can;\n            }\n        }\n    }\n\n    return NULL;", "                return true;\n            }\n        }\n    }\n\n    return false;"),
                    (F, "    if (find_product_rule(equations, node_name, attribute_name) == NULL) {", "    if (!find_product_rule(equations, node_name, attribute_name)) {")]),
 ('pr-n-flags', [], [(F, """        if (ATTRIBUTE_REFERENCE_INODE(node) == NULL &&
            !ATTRIBUTE_IS_SYNTHESIZED(attribute)) {""", """        bool is_this = ATTRIBUTE_REFERENCE_INODE(node) == NULL;
        if (is_this && ATTRIBUTE_IS_SYNTHESIZED(attribute)) {
            return;
        }
        if (is_this) {""")]),
 ('pr-n-order', [], [(F, "    TRAViequations(node);\n    TRAVichildren(node);\n    TRAViattributes(node);", "    TRAViattributes(node);\n    TRAVichildren(node);\n    TRAViequations(node);")]),
]
