Y = 'cocogen/frontend/scanAndParse/dsl-parser.y'
L = 'cocogen/frontend/scanAndParse/dsl-lexer.l'
MUTANTS = [
 ('ps-gate-cycle', ['C19'], [(Y, """    | cycleheader '{' info[information] ',' gate[gatef] ',' actionsbody[actions] '}'
    {
         $$ = $1;
         IPHASE_IINFO($$) = $information;
         IPHASE_IACTIONS($$) = $actions;
         IPHASE_GATE_FUNC($$) = $gatef;
""", """    | cycleheader '{' info[information] ',' gate[gatef] ',' actionsbody[actions] '}'
    {
         $$ = $1;
         IPHASE_IINFO($$) = $information;
         IPHASE_IACTIONS($$) = $actions;
""")]),
 ('ps-uid-func', ['C19'], [(Y, """        $$ = ASTipass($name, $information);
        IPASS_IPREFIX($$) = $identifier;
        IPASS_TARGET_FUNC($$) = $target_func;""", """        $$ = ASTipass($name, $information);
        IPASS_IPREFIX($$) = $identifier;""")]),
 ('ps-index', ['C19'], [(Y, """          $$ = ASTitraversal($name);
          ITRAVERSAL_INDEX($$) = trav_index++;""", """          $$ = ASTitraversal($name);
          ITRAVERSAL_INDEX($$) = trav_index;""")]),
 ('ps-index-node-counter', ['C19'], [(Y, "INODE_INDEX($1) = node_index++;", "INODE_INDEX($1) = trav_index++;")]),
 ('ps-inline-pass', ['C19'], [(Y, """        IACTIONS_REFERENCE($$) = CCNcopy(IPASS_NAME($1));
        IPASS_NEXT($1) = AST_IPASSES(ast);
        AST_IPASSES(ast) = $1;""", """        IACTIONS_REFERENCE($$) = CCNcopy(IPASS_NAME($1));
        if (AST_IPASSES(ast) == NULL) {
            AST_IPASSES(ast) = $1;
        }""")]),
 ('ps-inline-trav-next', ['C19'], [(Y, """        IACTIONS_REFERENCE($$) = CCNcopy(ITRAVERSAL_NAME($1));
        ITRAVERSAL_NEXT($1) = AST_ITRAVERSALS(ast);
""", """        IACTIONS_REFERENCE($$) = CCNcopy(ITRAVERSAL_NAME($1));
""")]),
 ('ps-type', ['C19'], [(Y, "{ $$ = AT_int64; }", "{ $$ = AT_int32; }")]),
 ('ps-lex-type', ['C19'], [(L, 'LEX_KEYWORD(T_UINT64)', 'LEX_KEYWORD(T_UINT32)')]),
 ('ps-lex-lost', ['C19'], [(L, '"allowed"       { LEX_KEYWORD(T_ALLOWED);}\n', '')]),
 ('ps-inclusive', ['C19'], [(Y, """    | '[' range_spec
    {
        $$ = ASTlifetime_range();
        LIFETIME_RANGE_INCLUSIVE($$) = true;
""", """    | '[' range_spec
    {
        $$ = ASTlifetime_range();
""")]),
 ('ps-range-swap', ['C19'], [(Y, """        ILIFETIME_TYPE($$) = LT_optional;
        ILIFETIME_BEGIN($$) = $begin;
        ILIFETIME_END($$) = $end;""", """        ILIFETIME_TYPE($$) = LT_optional;
        ILIFETIME_BEGIN($$) = $end;
        ILIFETIME_END($$) = $begin;""")]),
 ('ps-lifetype', ['C19'], [(Y, "ILIFETIME_TYPE($$) = LT_allowed;", "ILIFETIME_TYPE($$) = LT_disallowed;")]),
 ('ps-setop', ['C19'], [(Y, "$$ = ASTsetoperation($1, $3, SO_difference);", "$$ = ASTsetoperation($3, $1, SO_difference);")]),
 ('ps-literals', ['C19'], [(Y, """                SETIDinsert($1, $3);
                $$ = $1;""", """                $$ = $1;""")]),
 ('ps-opt-swap', ['C19'], [(Y, """        } else if (cur->value == BISON_BAO_inherited) {
            data->inherited = true;""", """        } else if (cur->value == BISON_BAO_inherited) {
            data->synthesized = true;""")]),
 ('ps-opt-life', ['C19'], [(Y, """                ILIFETIME_NEXT(current_lifetime) = cur->lifetime;
                current_lifetime = cur->lifetime;""", """                current_lifetime = cur->lifetime;""")]),
 ('ps-opt-user', ['C19'], [(Y, """        ATTRIBUTE_TYPE($$) = AT_user;
        struct bison_attribute_options *options = parse_attribute_options($keywords);
        ATTRIBUTE_IN_CONSTRUCTOR($$) = options->constructor;
        ATTRIBUTE_IS_INHERITED($$) = options->inherited;
        ATTRIBUTE_IS_SYNTHESIZED($$) = options->synthesized;""", """        ATTRIBUTE_TYPE($$) = AT_user;
        struct bison_attribute_options *options = parse_attribute_options($keywords);
        ATTRIBUTE_IN_CONSTRUCTOR($$) = options->constructor;
        ATTRIBUTE_IS_INHERITED($$) = options->inherited;
        ATTRIBUTE_IS_SYNTHESIZED($$) = options->inherited;""")]),
 ('ps-child-con', ['C19'], [(Y, """        CHILD_IN_CONSTRUCTOR($$) = $constructor;
        CHILD_LIFETIMES($$) = $lifetimes;""", """        CHILD_IN_CONSTRUCTOR($$) = false;
        CHILD_LIFETIMES($$) = $lifetimes;""")]),
 ('ps-idlist', ['C19'], [(Y, """        ID_NEXT($1) = $3;
        $$ = $1;
    }
    | id
    {
        $$ = $1;
    }
    ;


func:""", """        ID_NEXT($3) = $1;
        $$ = $3;
    }
    | id
    {
        $$ = $1;
    }
    ;


func:""")]),
 ('ps-nodeset-info', ['C19'], [(Y, """            INODESET_NAME($$) = $name;
            INODESET_IINFO($$) = $information;
        }""", """            INODESET_NAME($$) = $name;
        }""")]),
 ('ps-cycle', ['C19'], [(Y, "        IPHASE_IS_CYCLE($$) = true;\n", "        IPHASE_IS_CYCLE($$) = $1;\n")]),
 ('ps-root', ['C19'], [(Y, """    | is_root[root] T_NODE id[name] '{' attributebody[attributes] ',' equationbody[equations] '}'
    {
        $$ = ASTinode($name, NULL);
        INODE_IS_ROOT($$) = $root;""", """    | is_root[root] T_NODE id[name] '{' attributebody[attributes] ',' equationbody[equations] '}'
    {
        $$ = ASTinode($name, NULL);""")]),
 ('ps-equation-dep', ['C19'], [(Y, "        EQUATION_DEPENDENCY_NEXT($dep) = $next;\n", "")]),
 ('ps-accept', ['C19'], [(Y, """    | T_PASS id[name] '{'  info[information] ',' uid[identifier] '}'
    {
        $$ = ASTipass($name, $information);
        IPASS_IPREFIX($$) = $identifier;
    }
""", "")]),
 ('ps-count', ['C19'], [(Y, "AST_NUM_TRAVERSALS(ast) = trav_index;", "AST_NUM_TRAVERSALS(ast) = node_index;")]),
 ('ps-id-case', ['C19'], [(Y, "$$ = ASTid($1, STRlower($1), STRupper($1));", "$$ = ASTid($1, STRupper($1), STRlower($1));")]),
 ('ps-n-helper', [], [(Y, "void yyerror(const char* s);", """static node_st *NewPass(node_st *name, char *info, node_st *uid, node_st *func) {
    node_st *pass = ASTipass(name, info);
    if (uid != NULL) {
        IPASS_IPREFIX(pass) = uid;
    }
    IPASS_TARGET_FUNC(pass) = func;
    return pass;
}

void yyerror(const char* s);"""), (Y, """        $$ = ASTipass($name, $information);
        IPASS_IPREFIX($$) = $identifier;
        IPASS_TARGET_FUNC($$) = $target_func;""", """        $$ = NewPass($name, $information, $identifier, $target_func);"""),
  (Y, """        $$ = ASTipass($name, NULL);
        IPASS_TARGET_FUNC($$) = $target_func;
    }
    | T_PASS id[name] '{'  info""", """        $$ = NewPass($name, NULL, NULL, $target_func);
    }
    | T_PASS id[name] '{'  info""")]),
 ('ps-n-tmp', [], [(Y, """        INODE_INDEX($1) = node_index++;
        INODE_NEXT($1) = AST_INODES(ast);
        AST_INODES(ast) = $1;
        $$ = ast;""", """        node_st *first = AST_INODES(ast);
        AST_INODES(ast) = $1;
        INODE_NEXT($1) = first;
        INODE_INDEX($1) = node_index;
        node_index += 1;
        $$ = ast;""")]),
 ('ps-n-optional', [], [(Y, """    | cycleheader '{' info[information] ',' gate[gatef] ',' actionsbody[actions] '}'
    {
         $$ = $1;
         IPHASE_IINFO($$) = $information;
         IPHASE_IACTIONS($$) = $actions;
         IPHASE_GATE_FUNC($$) = $gatef;
    }
""", ""), (Y, """    | cycleheader '{' info[information] ',' actionsbody[actions] '}'
    {
         $$ = $1;""", """    | cycleheader '{' info[information] ',' cyclegate[gatef] actionsbody[actions] '}'
    {
         $$ = $1;
         IPHASE_GATE_FUNC($$) = $gatef;"""), (Y, "phaseheader: is_start T_PHASE id", """cyclegate: %empty
    {
        $$ = NULL;
    }
    | gate ','
    {
        $$ = $1;
    }
    ;

phaseheader: is_start T_PHASE id"""), (Y, "childlifetimes uid mandatory_uid gate", "childlifetimes uid mandatory_uid gate cyclegate")]),
 ('ps-n-optloop', [], [(Y, """        if (cur->value == BISON_BAO_constructor) {
            data->constructor = true;
        } else if (cur->value == BISON_BAO_inherited) {
            data->inherited = true;
        } else if (cur->value == BISON_BAO_synthesized) {
            data->synthesized = true;
        } else {""", """        switch (cur->value) {
        case BISON_BAO_constructor:
            data->constructor = true;
            break;
        case BISON_BAO_inherited:
            data->inherited = true;
            break;
        case BISON_BAO_synthesized:
            data->synthesized = true;
            break;
        default:"""), ]),
 ('ps-n-oldlex', [], [(L, '"bool"          { LEX_KEYWORD(T_BOOL);}\n', ''), (L, '"args"          {', '"bool"          { LEX_KEYWORD(T_BOOL);}\n"args"          {')]),
 ('ps-n-newlife', [], [(Y, """        $$ = ASTilifetime();
        ILIFETIME_TYPE($$) = LT_allowed;
        ILIFETIME_BEGIN($$) = $begin;
        ILIFETIME_END($$) = $end;""", """        node_st *lifetime = ASTilifetime();
        ILIFETIME_END(lifetime) = $end;
        ILIFETIME_BEGIN(lifetime) = $begin;
        ILIFETIME_TYPE(lifetime) = LT_allowed;
        $$ = lifetime;""")]),
]
