D = 'cocogen/frontend/attribute_scheduler/'
G, S, V = D + 'graph.c', D + 'schedule_attribute_visits.c', D + 'generate_visits.c'
C = ['C39']
MUTANTS = [
 # the graph of a node and of a nodeset
 ('sc-inh-only', C, [(S, "        if (ATTRIBUTE_IS_INHERITED(attr) || ATTRIBUTE_IS_SYNTHESIZED(attr)) {\n            GRadd_node", "        if (ATTRIBUTE_IS_INHERITED(attr)) {\n            GRadd_node")]),
 ('sc-child-own', C, [(S, "        add_attributes(graph, child, get_node_attributes(type));", "        if (type != node)\n            add_attributes(graph, child, get_node_attributes(type));")]),
 ('sc-eq-dir', C, [(S, "            handle_graph_error(GRadd_edge(graph, n1, n2, false));\n            if (n1->node", "            handle_graph_error(GRadd_edge(graph, n2, n1, false));\n            if (n1->node")]),
 ('sc-eq-syn-only', C, [(S, "            if (!ATTRIBUTE_IS_INHERITED(dep_attr) &&\n                !ATTRIBUTE_IS_SYNTHESIZED(dep_attr)) {\n                continue;", "            if (!ATTRIBUTE_IS_SYNTHESIZED(dep_attr)) {\n                continue;")]),
 ('sc-eq-ref', C, [(S, "                dep_node = ATTRIBUTE_REFERENCE_CHILD_REFERENCE(dep);", "                dep_node = ATTRIBUTE_REFERENCE_CHILD_REFERENCE(rule) ? ATTRIBUTE_REFERENCE_CHILD_REFERENCE(rule) : ATTRIBUTE_REFERENCE_CHILD_REFERENCE(dep);")]),
 ('sc-eq-intra', C, [(S, "            if (n1->node == n2->node) {\n                GRadd_new", "            if (n1->node == n2->node && n1->node == node) {\n                GRadd_new")]),
 ('sc-set-dir', C, [(S, "handle_graph_error(GRadd_edge(graph, n2, n1, false));\n            }\n        }", "handle_graph_error(GRadd_edge(graph, n1, n2, false));\n            }\n        }")]),
 ('sc-set-left', C, [(S, "    add_nodeset_entries(SETLITERAL_LEFT(current_node), nodes);\n    add_nodeset_entries(SETLITERAL_RIGHT(current_node), nodes);", "    if (SETLITERAL_LEFT(current_node)) {\n        add_nodeset_entries(SETLITERAL_LEFT(current_node), nodes);\n    } else {\n        add_nodeset_entries(SETLITERAL_RIGHT(current_node), nodes);\n    }")]),
 ('sc-set-close', C, [(S, "        handle_graph_error(GRclose_transitivity(graph, edges));\n\n        struct", "        if (entry->next == NULL)\n            handle_graph_error(GRclose_transitivity(graph, edges));\n\n        struct")]),
 # edges
 ('sc-self', C, [(G, "    if (n1 == n2 || HTlookup_edge(graph->internal->edge_map, n2, n1)) {", "    if (HTlookup_edge(graph->internal->edge_map, n2, n1)) {")]),
 ('sc-cycle-dir', C, [(G, "    if (n1 == n2 || HTlookup_edge(graph->internal->edge_map, n2, n1)) {", "    if (n1 == n2 || HTlookup_edge(graph->internal->edge_map, n1, n2)) {")]),
 ('sc-edge-equal', C, [(S, "    return GRnode_equal(edge1->first, edge2->first) &&\n           GRnode_equal(edge1->second, edge2->second);", "    return GRnode_equal(edge1->first, edge2->first) ||\n           GRnode_equal(edge1->second, edge2->second);")]),
 ('sc-close-once', C, [(G, "                        changed = true;\n", "")]),
 ('sc-close-intra', C, [(G, "                        if (i->node == j->node) {", "                        if (i->node == j->node && k->node != i->node) {")]),
 ('sc-close-cycle', C, [(G, "                        if (check_cycle(graph, i, j, &error, true)) {", "                        if (i->node == j->node && check_cycle(graph, i, j, &error, true)) {")]),
 ('sc-close-k', C, [(G, "HTlookup_edge(graph->internal->edge_map, k, j)) {", "HTlookup_edge(graph->internal->edge_map, j, k)) {")]),
 # induced edges
 ('sc-ind-first', C, [(S, "                if (from == NULL || to == NULL ||\n                    GRlookup_edge(graph, from, to, false)) {\n                    continue;", "                if (from == NULL || to == NULL ||\n                    GRlookup_edge(graph, from, to, false)) {\n                    break;")]),
 ('sc-ind-close', C, [(S, "    handle_graph_error(GRclose_transitivity(graph, new_edges));\n}", "    if (edges->next == NULL)\n        handle_graph_error(GRclose_transitivity(graph, new_edges));\n}")]),
 ('sc-ind-all', C, [(S, "            for (struct graph_list *graph = HTiterValue(iter); graph != NULL;\n                 graph = graph->next) {\n                struct GRedge_list *edges = NULL;", "            for (struct graph_list *graph = HTiterValue(iter); graph != NULL;\n                 graph = NULL) {\n                struct GRedge_list *edges = NULL;")]),
 ('sc-ind-keep', C, [(S, "            insert_edge->next = *edge_list;\n", "            insert_edge->next = NULL;\n")]),
 ('sc-ind-set', C, [(S, "        HTinsert(graphs_htable, nodeset, graphs);\n        combine_edgelists(&induced_edges, edges, induced_edges_map);", "        HTinsert(graphs_htable, nodeset, graphs);")]),
 ('sc-report', C, [(S, "    if (DATA_SAV_GET()->errors > 0) {", "    if (DATA_SAV_GET()->errors > 1) {")]),
 ('sc-report-none', C, [(S, "    CCNerrorAction();\n    DATA_SAV_GET()->errors += 1;", "    CCNerrorAction();")]),
 ('sc-report-add', C, [(S, "                handle_graph_error(GRadd_edge(graph, from, to, true));", "                GRadd_edge(graph, from, to, true);")]),
 # one turn of the queue
 ('sc-dep-first', C, [(V, "        has_unscheduled_dependencies = true;\n        sched_equation_dependency(node, st, dep->dependency, visits_htable,\n                                  child_visits_htable, queued, queue);\n    }", "        has_unscheduled_dependencies = dep->next != NULL;\n        sched_equation_dependency(node, st, dep->dependency, visits_htable,\n                                  child_visits_htable, queued, queue);\n    }")]),
 ('sc-prev', C, [(V, "    for (size_t i = 0; i < visit->index; ++i) {", "    for (size_t i = 1; i < visit->index; ++i) {")]),
 ('sc-prev-last', C, [(V, "    for (size_t i = 0; i < visit->index; ++i) {", "    for (size_t i = 0; i + 1 < visit->index; ++i) {")]),
 ('sc-input', C, [(V, "        has_unscheduled_dependencies = true;\n        sched_equation_dependency(node, st, gnode,", "        sched_equation_dependency(node, st, gnode,")]),
 ('sc-output-child', C, [(V, "                GRlookup_node(graph, child_visit->child,\n                              child_visit->visit->outputs[i]->attribute);\n            HTinsert(scheduled, output", "                child_visit->visit->outputs[i];\n            HTinsert(scheduled, output")]),
 ('sc-output-late', C, [(V, "        for (size_t i = 0; i < child_visit->visit->outputs_length; ++i) {", "        for (size_t i = 0; i < child_visit->visit->inputs_length; ++i) {")]),
 ('sc-again', C, [(V, "            fprintf(log, \"Found unscheduled dependency, skipping...\\n\");\n            QUinsert(queue, item);", "            fprintf(log, \"Found unscheduled dependency, skipping...\\n\");\n            if (!item->is_visit)\n                QUinsert(queue, item);")]),
 ('sc-eq-child', C, [(V, "    if (CHILD_TYPE(child) == CT_inodeset) {", "    if (CHILD_TYPE(child) == CT_inodeset) {")]),
 ('sc-eval-name', C, [(V, "        if (gnode->node != node) {\n            ATTRIBUTE_REFERENCE_INODE(reference)", "        if (gnode->node != node && ATTRIBUTE_IS_SYNTHESIZED(gnode->attribute)) {\n            ATTRIBUTE_REFERENCE_INODE(reference)")]),
 ('sc-skip-own', C, [(V, "        if (gnode->node != node && ATTRIBUTE_IS_SYNTHESIZED(gnode->attribute)) {\n            fprintf(log, \"; gen", "        if (gnode->node != node || ATTRIBUTE_IS_SYNTHESIZED(gnode->attribute)) {\n            fprintf(log, \"; gen")]),
 ('sc-hash-eq', C, [(V, "    return ptr1->child == ptr2->child && ptr1->visit == ptr2->visit;", "    return ptr1->visit == ptr2->visit;")]),
]
MUTANTS = [m for m in MUTANTS if m[0] != 'sc-eq-child']
