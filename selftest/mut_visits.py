D = 'cocogen/frontend/attribute_scheduler/'
P, CV, S, V, F = D + 'partition_nodes.c', D + 'collect_visits.c', D + 'schedule_attribute_visits.c', D + 'generate_visits.c', D + 'fill_visit_stubs.c'
C = ['C40']
MUTANTS = [
 ('vi-max', C, [(P, "                max_partition = dep_partition > max_partition ? dep_partition\n                                                              : max_partition;", "                max_partition = dep_partition;")]),
 ('vi-min', C, [(P, "dep_partition > max_partition ? dep_partition", "max_partition && dep_partition > max_partition ? max_partition")]),
 ('vi-wait', C, [(P, "                assignable = false;", "                assignable = max_partition != 0;")]),
 ('vi-noagain', C, [(P, "        if (!assignable) { // Wait for other nodes to complete\n            QUinsert(work_queue, node);", "        if (!assignable) { // Wait for other nodes to complete\n            if (synthesized) QUinsert(work_queue, node);")]),
 ('vi-same', C, [(P, "        if (synthesized == dep_synthesized) {\n            HTinsert(partition_table, attribute_id, (void *)max_partition);", "        if (synthesized || synthesized == dep_synthesized) {\n            HTinsert(partition_table, attribute_id, (void *)max_partition);")]),
 ('vi-base-low', C, [(P, "(void *)(synthesized ? 3UL : 2UL)", "(void *)(synthesized ? 1UL : 2UL)")]),
 ('vi-child-too', C, [(P, "        if (node->node == tnode) {\n            QUinsert(work_queue, node);\n        }\n    }\n\n    while ((node = QUpop(work_queue))) {\n        char", "        if (node->node == tnode || NODE_TYPE(node->node) == NT_CHILD) {\n            QUinsert(work_queue, node);\n        }\n    }\n\n    while ((node = QUpop(work_queue))) {\n        char")]),
 ('vi-index', C, [(CV, "visit_index = partition / 2 - 1;", "visit_index = (partition - 1) / 2 - (partition > 2);")]),
 ('vi-grow', C, [(CV, "        if (visit_index >= visits->length) {", "        if (visit_index > visits->length || visits->length == 0) {")]),
 ('vi-init-all', C, [(CV, "            for (size_t i = visits->length; i <= visit_index; ++i) {", "            for (size_t i = 0; i <= visit_index; ++i) {")]),
 ('vi-init-index', C, [(CV, "                visits->visits[i]->index = i;", "                visits->visits[i]->index = visit_index;")]),
 ('vi-inout', C, [(CV, "        if (ATTRIBUTE_IS_INHERITED(gnode->attribute)) {", "        if (ATTRIBUTE_IS_INHERITED(gnode->attribute) || partition == 0) {"), (CV, "            visit->outputs[visit->outputs_length] = gnode;\n            visit->outputs_length = visit->outputs_length + 1;", "            visit->outputs[visit->outputs_length] = gnode;\n            visit->outputs_length = visit->inputs_length + 1;")]),
 ('vi-own', C, [(CV, "        if (gnode->node != node) {\n            continue;", "        if (gnode->node != node) {\n            break;")]),
 ('vi-empty-last', C, [(CV, "        if (visits->length > 0) {\n            return true;\n        }\n    }\n\n    return false;", "        if (visits->length > 0 && CHILD_NEXT(child) == NULL) {\n            return true;\n        }\n    }\n\n    return false;")]),
 ('vi-empty-once', C, [(CV, "                add_empty_visit(visits);\n                changes += 1;\n            }\n        }\n\n        for (node_st *nodeset", "                add_empty_visit(visits);\n            }\n        }\n\n        for (node_st *nodeset")]),
 ('vi-empty-left', C, [(CV, "    return nodeset_has_visit(SETLITERAL_LEFT(expr), st, visits_htable) ||\n           nodeset_has_visit(SETLITERAL_RIGHT(expr), st, visits_htable);", "    return nodeset_has_visit(SETLITERAL_LEFT(expr), st, visits_htable);")]),
 ('vi-last', C, [(V, "                                        (i + 1) == visits->length);", "                                        i == visits->length);")]),
 ('vi-number', C, [(V, "generate_visit_output(node, st, visits->visits[i]), node, i + 1);", "generate_visit_output(node, st, visits->visits[i]), node, i);")]),
 ('vi-out-of', C, [(V, "generate_visit_output(node, st, visits->visits[i]), node, i + 1);", "generate_visit_output(node, st, visits->visits[0]), node, i + 1);")]),
 ('vi-in-skip', C, [(V, "    for (long i = visit->inputs_length - 1; i >= 0; --i) {", "    for (long i = visit->inputs_length - 1; i > 0; --i) {")]),
 ('vi-mark', C, [(V, "    for (size_t i = 0; i < visit->inputs_length; ++i) {\n        if (!HTlookup(scheduled, visit->inputs[i])) {", "    for (size_t i = 0; i < visit->inputs_length; ++i) {\n        if (i == 0 && !HTlookup(scheduled, visit->inputs[i])) {")]),
 ('vi-mdata', C, [(V, "        HTinsert(visit_mdata_htable, visits_node, visits->visits[i]);", "        HTinsert(visit_mdata_htable, visits_head, visits->visits[i]);")]),
 ('vi-tail', C, [(V, "            VISIT_NEXT(visits_tail) = visits_node;\n            visits_tail = visits_node;", "            VISIT_NEXT(visits_tail) = visits_node;\n            visits_tail = visits_head;")] ),
 ('vi-kid-first', C, [(V, "            for (size_t i = 0; i < child_visits->length; ++i) {", "            for (size_t i = 0; i < 1 && i < child_visits->length; ++i) {")]),
 ('vi-out-first', C, [(V, "    for (size_t i = 0; i < visit->outputs_length; ++i) {\n        item = ", "    for (size_t i = 0; i < visit->outputs_length && i < 1; ++i) {\n        item = ")]),
 ('vi-member-own', C, [(V, "    if (original_visit->index < visits->length) {\n        struct visit *visit = visits->visits[original_visit->index];", "    if (original_visit->index < visits->length) {\n        struct visit *visit = visits->visits[visits->length - 1];")]),
 ('vi-member-orig', C, [(V, "        add_visit_stub(visit_stubs_htable, visit, sequence);\n    } else {\n        fprintf(log, \"Do not", "        add_visit_stub(visit_stubs_htable, original_visit, sequence);\n    } else {\n        fprintf(log, \"Do not")]),
 ('vi-member-lost', C, [(V, "    if (left_tail != NULL) {\n        set_alt(left_tail, sequence_right);\n    } else {\n        set_alt(sequence, sequence_right);\n    }", "    if (left_tail != NULL) {\n        set_alt(sequence_left, sequence_right);\n    } else {\n        set_alt(sequence, sequence_right);\n    }")]),
 ('vi-member-tail', C, [(V, "    } else if (left_tail != NULL) {\n        *visit_tail = left_tail;", "    } else if (left_tail != NULL) {\n        *visit_tail = sequence_left;")]),
 ('vi-dummy-first', C, [(V, "    if (last_dummy != NULL && visit != NULL) {", "    if (last_dummy != NULL && visit != NULL && last_dummy == sequence) {")]),
 ('vi-dummy-lost', C, [(V, "        VISIT_SEQUENCE_DUMMY_ALT(last_dummy) = VISIT_SEQUENCE_VISIT_ALT(visit);\n", "        VISIT_SEQUENCE_DUMMY_ALT(last_dummy) = NULL;\n")]),
 ('vi-stub-one', C, [(F, "    stub->next = stub_head;", "    stub->next = NULL;\n    (void)stub_head;")]),
 ('vi-stub-first', C, [(F, "             visit_stub; visit_stub = visit_stub->next) {", "             visit_stub; visit_stub = NULL) {")]),
 ('vi-glue-set', C, [(S, "        htable_st *partition_table = partition_nodes(graph->graph, nodeset);\n        HTinsert(partition_tables, nodeset, partition_table);", "        htable_st *partition_table = partition_nodes(graph->graph, nodeset);\n        HTinsert(partition_tables, INODESET_EXPR(nodeset), partition_table);")]),
 ('vi-glue-fill', C, [(S, "        INODE_VISIT(inode) = visit_sequences;\n", "        INODE_VISIT(inode) = visit_sequences;\n        fill_visit_stubs(inode, visit_mdata_htable, visit_stubs_htable);\n"), (S, "        fill_visit_stubs(inode, visit_mdata_htable, visit_stubs_htable);\n    }\n\n    HTmap", "    }\n\n    HTmap")]),
]
MUTANTS = [m for m in MUTANTS if m[0] != 'vi-tail']
