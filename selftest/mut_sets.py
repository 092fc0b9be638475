S = 'cocogen/sets/'
U = 'cocogen/frontend/unwrap_setexpr.c'
MUTANTS = [
 ('se-diff-neg', ['C20'], [(S+'literal_difference.c', 'if(!SETIDcontains(data->right', 'if(SETIDcontains(data->right')]),
 ('se-inter-dst', ['C20'], [(S+'literal_intersect.c', 'SETIDcontains(data->src,', 'SETIDcontains(data->new,')]),
 ('se-inter-below', ['C20'], [(S+'literal_intersect.c', '''    if (SETIDcontains(data->src, SETLITERAL_REFERENCE(node))) {
        data->new = SETIDinsert(data->new, SETLITERAL_REFERENCE(node));
    }
    TRAVchildren(node);
''', '''    if (SETIDcontains(data->src, SETLITERAL_REFERENCE(node))) {
        data->new = SETIDinsert(data->new, SETLITERAL_REFERENCE(node));
        TRAVchildren(node);
    }
''')]),
 ('se-diff-left', ['C20'], [(S+'literal_difference.c', '    TRAVchildren(node);', '    TRAVleft(node);'), (S+'literal_difference.c', '#include "sets/set.h"', '#include "sets/set.h"\n#include "ccngen/trav.h"')]),
 ('se-union-one', ['C20'], [(S+'set.c', '        TRAVopt(set2);\n', '')]),
 ('se-union-else', ['C20'], [(S+'set.c', '        TRAVopt(set2);\n', '        if (set1 == NULL) {\n            TRAVopt(set2);\n        }\n')]),
 ('se-union-early', ['C20'], [(S+'set.c', '        TRAVopt(set2);\n        new = data->dst;\n', '        new = data->dst;\n        TRAVopt(set2);\n')]),
 ('se-union-alias', ['C20'], [(S+'set.c', 'node_st *SETIDunion(node_st *set1, node_st *set2)\n{\n', 'node_st *SETIDunion(node_st *set1, node_st *set2)\n{\n    if (set2 == NULL) {\n        return set1;\n    }\n')]),
 ('se-diff-swap', ['C20'], [(S+'set.c', '        data->right = right;\n        TRAVdo(left);', '        data->right = left;\n        TRAVopt(right);')]),
 ('se-diff-noright', ['C20'], [(S+'set.c', '        data->right = right;\n        TRAVdo(left);', '        TRAVdo(left);\n        data->right = right;')]),
 ('se-diff-null', ['C20'], [(S+'set.c', 'node_st *SETIDdifference(node_st *left, node_st *right)\n{\n    if (left == NULL) {', 'node_st *SETIDdifference(node_st *left, node_st *right)\n{\n    if (left == NULL || right == NULL) {')]),
 ('se-inter-null', ['C20'], [(S+'set.c', '    if (dst == NULL) {\n        return NULL;\n    }\n', '')]),
 ('se-contains-side', ['C20'], [(S+'literal_lookup.c', '} else if (cmp < 0) {', '} else if (cmp > 0) {')]),
 ('se-contains-one', ['C20'], [(S+'literal_lookup.c', '    } else {\n        TRAVright(node);', '    } else if (cmp == 1) {\n        TRAVright(node);')]),
 ('se-contains-orig', ['C20'], [(S+'literal_lookup.c', 'strcmp(ID_LWR(data->lookup), ID_LWR(SETLITERAL_REFERENCE(node)))', 'strcmp(ID_ORIG(data->lookup), ID_ORIG(SETLITERAL_REFERENCE(node)))')]),
 ('se-insert-over', ['C20'], [(S+'literal_insert.c', '        if (SETLITERAL_RIGHT(node)) {\n            TRAVright(node);\n        } else {\n            SETLITERAL_RIGHT(node) = NewLiteral(data);\n        }', '        SETLITERAL_RIGHT(node) = NewLiteral(data);')]),
 ('se-insert-dup', ['C20'], [(S+'literal_insert.c', '    if (cmp == 0) {\n        data->inserted = false;\n    } else if (cmp < 0) {', '    if (cmp <= 0) {')]),
 ('se-insert-flag', ['C20'], [(S+'literal_insert.c', '    data->inserted = true;\n', '')]),
 ('se-insert-nocopy', ['C20'], [(S+'set.c', '    data->value = TRAVstart(id, TRAV_cpy);', '    data->value = id;')]),
 ('se-insert-empty', ['C20'], [(S+'set.c', '        return ASTsetliteral(TRAVstart(id, TRAV_cpy));', '        return ASTsetliteral(id);')]),
 ('se-contains-result', ['C20'], [(S+'set.c', '        if (data->contains) {', '        if (data->lookup == id) {')]),
 ('se-use-swap', ['C20'], [(U, 'SETIDdifference(SETOPERATION_LEFT(node), SETOPERATION_RIGHT(node))', 'SETIDdifference(SETOPERATION_RIGHT(node), SETOPERATION_LEFT(node))')]),
 ('se-use-op', ['C20'], [(U, 'SETIDintersect(SETOPERATION_LEFT(node), SETOPERATION_RIGHT(node))', 'SETIDunion(SETOPERATION_LEFT(node), SETOPERATION_RIGHT(node))')]),
 ('se-use-late', ['C20'], [(U, 'node_st *USEsetoperation(node_st *node)\n{\n    TRAVchildren(node);\n', 'node_st *USEsetoperation(node_st *node)\n{\n'), (U, '    TRAVstart(node, TRAV_free);\n    return new;\n}\n\n/**', '    TRAVchildren(node);\n    TRAVstart(node, TRAV_free);\n    return new;\n}\n\n/**')]),
 ('se-ref-alias', ['C20'], [(U, '    node_st *new = TRAVstart(curr, TRAV_cpy);', '    node_st *new = curr;')]),
 ('se-ref-noeval', ['C20'], [(U, '    if (INODESET_EXPR(nodeset) && NODE_TYPE(INODESET_EXPR(nodeset)) != NT_SETLITERAL) {\n        TRAVchildren(nodeset);\n    }\n', '')]),
 ('se-ref-empty', ['C20'], [(U, '    if (INODESET_EXPR(nodeset)) {\n', '    if (INODESET_EXPR(nodeset) && NODE_TYPE(INODESET_EXPR(nodeset)) == NT_SETLITERAL && SETLITERAL_LEFT(INODESET_EXPR(nodeset))) {\n')]),
 # behaviour kept
 ('se-n-swapcmp', [], [(S+'literal_lookup.c', 'strcmp(ID_LWR(data->lookup), ID_LWR(SETLITERAL_REFERENCE(node)))', 'strcmp(ID_LWR(SETLITERAL_REFERENCE(node)), ID_LWR(data->lookup))'), (S+'literal_lookup.c', 'cmp < 0', 'cmp > 0')]),
 ('se-n-first', [], [(S+'literal_intersect.c', '''    if (SETIDcontains(data->src, SETLITERAL_REFERENCE(node))) {
        data->new = SETIDinsert(data->new, SETLITERAL_REFERENCE(node));
    }
    TRAVchildren(node);
''', '''    TRAVchildren(node);
    if (!SETIDcontains(data->src, SETLITERAL_REFERENCE(node))) {
        return node;
    }
    data->new = SETIDinsert(data->new, SETLITERAL_REFERENCE(node));
''')]),
 ('se-n-union-null', [], [(S+'set.c', '        TRAVopt(set1);\n        TRAVopt(set2);\n', '        if (set2 != NULL) {\n            TRAVdo(set2);\n        }\n        TRAVopt(set1);\n')]),
 ('se-n-union-copy', [], [(S+'set.c', 'node_st *SETIDunion(node_st *set1, node_st *set2)\n{\n', 'node_st *SETIDunion(node_st *set1, node_st *set2)\n{\n    if (set2 == NULL) {\n        return set1 ? TRAVstart(set1, TRAV_cpy) : NULL;\n    }\n')]),
 ('se-n-contains', [], [(S+'set.c', '        TRAVdo(literal);\n        if (data->contains) {\n            found = true;\n        }', '        TRAVdo(literal);\n        found = data->contains;')]),
 ('se-n-use-if', [], [(U, '''    switch(SETOPERATION_TYPE(node)) {
    case SO_iunion:
        new = SETIDunion(SETOPERATION_LEFT(node), SETOPERATION_RIGHT(node));
        break;
    case SO_intersect:
        new = SETIDintersect(SETOPERATION_LEFT(node), SETOPERATION_RIGHT(node));
        break;
    case SO_difference:
        new = SETIDdifference(SETOPERATION_LEFT(node), SETOPERATION_RIGHT(node));
        break;
    default:
        assert(false);
    }
''', '''    node_st *left = SETOPERATION_LEFT(node);
    node_st *right = SETOPERATION_RIGHT(node);
    if (SETOPERATION_TYPE(node) == SO_iunion) {
        new = SETIDunion(right, left);
    } else if (SETOPERATION_TYPE(node) == SO_intersect) {
        new = SETIDintersect(left, right);
    } else if (SETOPERATION_TYPE(node) == SO_difference) {
        new = SETIDdifference(left, right);
    }
''')]),
 ('se-n-ref', [], [(U, '    node_st *curr = INODESET_EXPR(nodeset);\n    node_st *new = TRAVstart(curr, TRAV_cpy);\n', '    node_st *new = CCNcopy(INODESET_EXPR(nodeset));\n')]),
]
