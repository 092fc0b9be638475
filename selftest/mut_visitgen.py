"""Mutants of the generated attribute evaluation (C41, C42)."""
MUTANTS = [
    ('vg-input-flag', ['C41'], [('cocogen/dynamic_backend/gen_visit_source.c', '    OUT("node->data.N_%s->_%s.ccn_val_set = true;\\n",\n        ID_LWR(INODE_NAME(curr_node)), ID_LWR(ATTRIBUTE_NAME(attribute)));\n    OUT("node->data.N_%s->_%s.%s = %s;', '    OUT("node->data.N_%s->_%s.%s = %s;')]),
    ('vg-input-first', ['C41'], [('cocogen/dynamic_backend/gen_visit_source.c', '        print_set_value(ATTRIBUTE_REFERENCE_REFERENCE(attribute), arg_str);\n        MEMfree(arg_str);\n    }\n    if (VISIT_INPUTS', '        print_set_value(ATTRIBUTE_REFERENCE_REFERENCE(attribute), arg_str);\n        MEMfree(arg_str);\n        break;\n    }\n    if (VISIT_INPUTS')]),
    ('vg-out-one', ['C41'], [('cocogen/dynamic_backend/gen_visit_source.c', '            OUT("visit_output.%s_%s = %s_%s;\\n", get_node_name_this(output),\n                ID_LWR(ATTRIBUTE_REFERENCE_IATTRIBUTE(output)),\n                get_node_name_this(output),\n                ID_LWR(ATTRIBUTE_REFERENCE_IATTRIBUTE(output)));', '            OUT("visit_output.%s_%s = %s_%s;\\n", get_node_name_this(output),\n                ID_LWR(ATTRIBUTE_REFERENCE_IATTRIBUTE(output)),\n                get_node_name_this(output),\n                ID_LWR(ATTRIBUTE_REFERENCE_IATTRIBUTE(VISIT_ARG_LIST_ATTRIBUTE(VISIT_OUTPUTS(node)))));')]),
    ('vg-eq-name', ['C41'], [('cocogen/dynamic_backend/gen_visit_source.c', '        if (STReq(find_node_name, cand_node_name) &&\n            STReq(', '        if ((ATTRIBUTE_REFERENCE_INODE(attribute) || STReq(find_node_name, cand_node_name)) &&\n            STReq(')]),
    ('vg-eq-child', ['C41'], [('cocogen/dynamic_backend/gen_visit_source.c', '        if (STReq(find_node_name, cand_node_name) &&', '        if (STRlen(find_node_name) == STRlen(cand_node_name) &&')]),
    ('vg-child-flag', ['C41'], [('cocogen/dynamic_backend/gen_visit_source.c', '    OUT("%s_%s(node)->data.N_%s->_%s.ccn_val_set = true;\\n",\n        ID_UPR(INODE_NAME(curr_node)), ID_UPR(CHILD_NAME(child)),\n        ID_LWR(INODE_NAME(inode)), ID_LWR(ATTRIBUTE_NAME(attribute)));', '')]),
    ('vg-set-right', ['C41'], [('cocogen/dynamic_backend/gen_visit_source.c', '    print_set_nodeset_child_value(SETLITERAL_RIGHT(expr), child, attribute);\n', '')]),
    ('vg-set-left', ['C41'], [('cocogen/dynamic_backend/gen_visit_source.c', '    print_set_nodeset_child_value(SETLITERAL_LEFT(expr), child, attribute);\n', '')]),
    ('vg-mask-bit', ['C41'], [('cocogen/dynamic_backend/gen_visit_source.c', 'if (bitmask & (0x1UL << i)) {', 'if (bitmask & (0x1UL & i)) {')]),
    ('vg-mask-short', ['C41'], [('cocogen/dynamic_backend/gen_visit_source.c', 'for (size_t bitmask = 0; bitmask < combinations; ++bitmask) {', 'for (size_t bitmask = 1; bitmask < combinations; ++bitmask) {')]),
    ('vg-mask-reverse', ['C41'], [('cocogen/dynamic_backend/gen_visit_source.c', '                    HTiterSetValue(iter, (void *)CH_TRUE);\n                } else {\n                    HTiterSetValue(iter, (void *)CH_FALSE);', '                    HTiterSetValue(iter, (void *)CH_FALSE);\n                } else {\n                    HTiterSetValue(iter, (void *)CH_TRUE);')]),
    ('vg-cond-first', ['C41'], [('cocogen/dynamic_backend/gen_visit_source.c', '                                      ID_UPR(INODE_NAME(curr_node)),\n                                      ID_UPR(CHILD_NAME(child)));\n                    }', '                                      ID_UPR(INODE_NAME(curr_node)),\n                                      ID_UPR(CHILD_NAME(child)));\n                        break;\n                    }')]),
    ('vg-cond-or', ['C41'], [('cocogen/dynamic_backend/gen_visit_source.c', 'OUT_NO_INDENT(" && ");', 'OUT_NO_INDENT(" || ");')]),
    ('vg-null-args', ['C41'], [('cocogen/dynamic_backend/gen_visit_source.c', '            if ((enum child_htable)HTlookup(children_null, child) == CH_FALSE) {\n                continue;', '            if ((enum child_htable)HTlookup(children_null, child) == CH_TRUE) {\n                continue;')]),
    ('vg-store-opt', ['C41'], [('cocogen/dynamic_backend/gen_visit_source.c', '    } else { // attribute of child\n', '    } else if (HTelementCount(children_null) == 0) { // attribute of child\n')]),
    ('vg-opt-guard', ['C41'], [('cocogen/dynamic_backend/gen_visit_source.c', '    if (!CHILD_IS_MANDATORY(child)) {\n        OUT_BEGIN_IF("%s != NULL", child_access);\n    }', '    if (!CHILD_IS_MANDATORY(child) && VISIT_OUTPUTS(visit)) {\n        OUT_BEGIN_IF("%s != NULL", child_access);\n    }')]),
    ('vg-alt-one', ['C41'], [('cocogen/dynamic_backend/gen_visit_source.c', '             alt_visit = get_alt(alt_visit)) {\n            if', '             alt_visit = NODE_TYPE(alt_visit) == NT_VISIT_SEQUENCE_DUMMY ? NULL : get_alt(alt_visit)) {\n            if')]),
    ('vg-alt-type', ['C41'], [('cocogen/dynamic_backend/gen_visit_source.c', '                print_visit_call(alt_visit, outputs, false, true);', '                print_visit_call(node, outputs, false, true);')]),
    ('vg-inputs-one', ['C41'], [('cocogen/dynamic_backend/gen_visit_source.c', '                      child_access);\n    }\n\n    OUT_NO_INDENT(");', '                      child_access);\n        break;\n    }\n\n    OUT_NO_INDENT(");')]),
    ('vg-dup-var', ['C41'], [('cocogen/dynamic_backend/gen_visit_source.c', '            OUT("struct %s_out %s_%s_output", visit_name,\n                ID_LWR(CHILD_NAME(child)), visit_name);', '            OUT("struct %s_out %s_output", visit_name, visit_name);')]),
    ('vg-index', ['C41'], [('cocogen/dynamic_backend/gen_ag_source.c', '               VISIT_INDEX(node));\n    OUT("%s(node);', '               VISIT_INDEX(INODE_VISIT(curr_node)));\n    OUT("%s(node);')]),
    ('vg-entry-some', ['C41'], [('cocogen/dynamic_backend/gen_ag_source.c', '    if (INODE_VISIT(node) && !has_inherited_attributes) {', '    if (INODE_VISIT(node) && VISIT_OUTPUTS(INODE_VISIT(node)) && !VISIT_NEXT(INODE_VISIT(node)) && !has_inherited_attributes) {')]),
    ('vg-hdr-type', ['C41'], [('cocogen/dynamic_backend/gen_visit_header.c', '        OUT("enum %s", ID_ORIG(IENUM_NAME(ref)));', '        OUT("enum %s", ID_LWR(IENUM_NAME(ref)));')]),
    ('vg-hdr-out', ['C41'], [('cocogen/dynamic_backend/gen_visit_header.c', '    } else if (!VISIT_ARG_LIST_NEXT(VISIT_OUTPUTS(node))) { // 1 output', '    } else if (!VISIT_ARG_LIST_NEXT(VISIT_OUTPUTS(node)) && VISIT_INPUTS(node)) { // 1 output')]),
    ('vg-collect-dup', ['C41', 'C42'], [('cocogen/dynamic_backend/collect_children.c', '        if (!CHILD_IS_MANDATORY(child) && !HTlookup(htable, child)) {', '        if (!CHILD_IS_MANDATORY(child)) {')]),
    ('vg-collect-mand', ['C42', 'C41'], [('cocogen/dynamic_backend/collect_children.c', '        if (!CHILD_IS_MANDATORY(child) && !HTlookup(htable, child)) {', '        if (!(CHILD_IS_MANDATORY(child) && CHILD_TYPE(child) == CT_inode) && !HTlookup(htable, child)) {')]),
    ('vg-collect-tail', ['C41', 'C42'], [('cocogen/dynamic_backend/collect_children.c', '                tail->next = child_entry;\n                tail = child_entry;', '                tail->next = child_entry;')]),
    ('vg-link-include', ['C42'], [('cocogen/dynamic_backend/gen_equation_functions.c', '        OUT("#include \\"ccngen/ast.h\\"\\n");\n', '')]),
    ('vg-q-bit', ['C42'], [('cocogen/dynamic_backend/gen_equation_functions.c', 'if (bitmask & (0x1UL << i)) {', 'if (bitmask & (0x1UL & i)) {')]),
    ('vg-q-short', ['C42'], [('cocogen/dynamic_backend/gen_equation_functions.c', 'bitmask < combinations; ++bitmask', 'bitmask < combinations - (combinations > 2); ++bitmask')]),
    ('vg-q-null', ['C42'], [('cocogen/dynamic_backend/gen_equation_functions.c', '== CH_FALSE) {\n                continue;', '== CH_TRUE) {\n                continue;')]),
    ('vg-u-bit', ['C42'], [('cocogen/dynamic_backend/gen_user_equations.c', 'if (bitmask & (0x1UL << i)) {', 'if (bitmask & (0x1UL & i)) {')]),
    ('vg-u-short', ['C42'], [('cocogen/dynamic_backend/gen_user_equations.c', 'bitmask < combinations; ++bitmask', 'bitmask < combinations - (combinations > 2); ++bitmask')]),
    ('vg-u-null', ['C42'], [('cocogen/dynamic_backend/gen_user_equations.c', '== CH_FALSE) {\n                continue;', '== CH_TRUE) {\n                continue;')]),
]
