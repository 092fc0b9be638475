H = 'palm/src/hash_table.c'
C = 'palm/src/ctinfo.c'
MUTANTS = [
 ('ht-insert-last-unchecked', ['C10'], [(H, '''        if (table->is_equal_f(last->key, key)) {
            last->value = value;
            return true;
        }

        target''', '''        target''')]),
 ('ht-insert-count', ['C10'], [(H, '''        if (table->is_equal_f(last->key, key)) {
            last->value = value;
            return true;
        }

        target''', '''        if (table->is_equal_f(last->key, key)) {
            last->value = value;
            table->elements++;
            return true;
        }

        target''')]),
 ('ht-remove-nocount', ['C10'], [(H, '            previous->next = entry->next;\n            DeleteEntry(table, entry);\n            table->elements--;', '            previous->next = entry->next;\n            DeleteEntry(table, entry);')]),
 ('ht-remove-drop-chain', ['C10'], [(H, '        table->entries[index] = entry->next;\n', '        table->entries[index] = NULL;\n')]),
 ('ht-remove-uaf', ['C10'], [(H, '            previous->next = entry->next;\n            DeleteEntry(table, entry);', '            DeleteEntry(table, entry);\n            previous->next = entry->next;')]),
 ('ht-remove-prev-bug', ['C10'], [(H, '        previous = entry;\n        entry = entry->next;\n    }', '        entry = entry->next;\n    }')]),
 ('ht-remove-null', ['C10'], [(H, 'entry = entry ? entry->next : NULL;', 'entry = entry->next;')]),
 ('ht-lookup-second', ['C10'], [(H, '                return last->value;\n            }\n        }\n    }', '                return last->value;\n            }\n            if (!last->next) break;\n            last = last->next;\n        }\n    }')]),
 ('ht-lookup-firstonly', ['C10'], [(H, '                return last->value;\n            }\n        }\n    }', '                return last->value;\n            }\n            if (last->value == NULL) break;\n        }\n    }')]),
 ('ht-clear-count', ['C10'], [(H, '    table->elements = 0;\n}', '}')]),
 ('ht-clear-leak', ['C10'], [(H, '            DeleteEntry(table, entry);\n            entry = next;\n        }\n        table->entries[i] = NULL;', '            DeleteEntry(table, entry);\n            entry = next ? next->next : NULL;\n        }\n        table->entries[i] = NULL;')]),
 ('ht-delete-leak', ['C10'], [(H, '    HTclear(table);\n    MEMfree(table->entries);', '    MEMfree(table->entries);')]),
 ('ht-delete-order', ['C10'], [(H, '    HTclear(table);\n    MEMfree(table->entries);', '    MEMfree(table->entries);\n    HTclear(table);')]),
 ('ht-map-break', ['C10'], [(H, '            entry->value = fun(entry->value);\n            entry = entry->next;', '            entry->value = fun(entry->value);\n            if (!entry->value) break;\n            entry = entry->next;')]),
 ('ht-map-lost', ['C10'], [(H, '            entry->value = fun(data, entry->key, entry->value);', '            fun(data, entry->key, entry->value);')]),
 ('ht-mapkey-val', ['C10'], [(H, '            entry->value = fun(entry->key, entry->value);', '            entry->value = fun(entry->value, entry->value);')]),
 ('ht-iter-skip', ['C10'], [(H, 'for (size_t i = iter->current_element + 1; i', 'for (size_t i = iter->current_element + 2; i')]),
 ('ht-iter-elem', ['C10'], [(H, '            iter->current_entry = iter->table->entries[i];\n            iter->current_element = i;', '            iter->current_entry = iter->table->entries[i];')]),
 ('ht-iter-leak', ['C10'], [(H, '    // No more elements\n    MEMfree(iter);', '    // No more elements')]),
 ('ht-iter-last', ['C10'], [(H, 'i < iter->table->size; ++i', 'i < iter->table->size - 1; ++i')]),
 ('ht-cpy-skip', ['C10'], [(H, '''        HTinsert(new_table, key_copy_func(HTiterKey(iter)),
                            val_copy_func(HTiterValue(iter)));''', '''        HTinsert(new_table, HTiterKey(iter),
                            val_copy_func(HTiterValue(iter)));''')]),
 ('ht-cpy-eq', ['C10'], [(H, '''    struct htable *new_table = HTnew(table->size, table->hash_f,
                                     table->is_equal_f);

    for (htable_iter_st *iter = HTiterate(table); iter;
         iter = HTiterateNext(iter)) {
        HTinsert(new_table, HTiterKey''', '''    struct htable *new_table = HTnew_String(table->size);

    for (htable_iter_st *iter = HTiterate(table); iter;
         iter = HTiterateNext(iter)) {
        HTinsert(new_table, HTiterKey''')]),
 ('ht-strci', ['C10'], [(H, '(is_equal_ft)STReq)', '(is_equal_ft)STReqci)')]),
 ('ht-ptrint', ['C10'], [(H, 'HTnew(size, (hash_key_ft)IntHash', 'HTnew(size, (hash_key_ft)PtrHash')]),
 ('ht-remove-idx', ['C10'], [(H, 'void *HTremove(htable_st *table, void *key)\n{\n    size_t index = table->hash_f(key) % table->size;', 'void *HTremove(htable_st *table, void *key)\n{\n    size_t index = table->hash_f(key) % (table->size - 1);')]),
 # neutral
 ('n-ht-remove-link', [], [(H, '''    void *value = NULL;
    struct htable_entry *previous = NULL;
    struct htable_entry *entry = table->entries[index];

    if (entry && table->is_equal_f(entry->key, key)) {
        value = entry->value;
        table->entries[index] = entry->next;
        DeleteEntry(table, entry);
        table->elements--;
        entry = NULL;
        return value;
    }

    previous = entry;
    entry = entry ? entry->next : NULL;

    while (entry) {
        if (table->is_equal_f(entry->key, key)) {
            value = entry->value;
            previous->next = entry->next;
            DeleteEntry(table, entry);
            table->elements--;
            entry = NULL;
            return value;
        }

        previous = entry;
        entry = entry->next;
    }

    return NULL;''', '''    struct htable_entry **link = &table->entries[index];
    while (*link) {
        struct htable_entry *entry = *link;
        if (table->is_equal_f(entry->key, key)) {
            void *value = entry->value;
            *link = entry->next;
            table->elements--;
            DeleteEntry(table, entry);
            return value;
        }
        link = &entry->next;
    }
    return NULL;''')]),
 ('n-ht-remove-prev', [], [(H, '''    if (entry && table->is_equal_f(entry->key, key)) {
        value = entry->value;
        table->entries[index] = entry->next;
        DeleteEntry(table, entry);
        table->elements--;
        entry = NULL;
        return value;
    }

    previous = entry;
    entry = entry ? entry->next : NULL;

    while (entry) {
        if (table->is_equal_f(entry->key, key)) {
            value = entry->value;
            previous->next = entry->next;
            DeleteEntry(table, entry);''', '''    while (entry) {
        if (table->is_equal_f(entry->key, key)) {
            value = entry->value;
            if (previous) { previous->next = entry->next; } else { table->entries[index] = entry->next; }
            DeleteEntry(table, entry);''')]),
 ('n-ht-insert-loop', [], [(H, '''    struct htable_entry **target = NULL;

    size_t index = table->hash_f(key) % table->size;

    if (!table->entries[index]) {
        target = &(table->entries[index]);
    } else {
        struct htable_entry *last = table->entries[index];
        for (; last->next; last = last->next) {
            if (table->is_equal_f(last->key, key)) {
                last->value = value;
                return true;
            }
        }
        if (table->is_equal_f(last->key, key)) {
            last->value = value;
            return true;
        }

        target = &(last->next);
    }

    *target = NewEntry(table, key, value);''', '''    size_t index = table->hash_f(key) % table->size;
    struct htable_entry *cur = table->entries[index];
    while (cur != NULL) {
        if (table->is_equal_f(cur->key, key)) {
            cur->value = value;
            return true;
        }
        cur = cur->next;
    }
    struct htable_entry *e = NewEntry(table, key, value);
    e->next = table->entries[index];
    table->entries[index] = e;''')]),
 ('n-ht-insert-link', [], [(H, '''    struct htable_entry **target = NULL;

    size_t index = table->hash_f(key) % table->size;

    if (!table->entries[index]) {
        target = &(table->entries[index]);
    } else {
        struct htable_entry *last = table->entries[index];
        for (; last->next; last = last->next) {
            if (table->is_equal_f(last->key, key)) {
                last->value = value;
                return true;
            }
        }
        if (table->is_equal_f(last->key, key)) {
            last->value = value;
            return true;
        }

        target = &(last->next);
    }
''', '''    size_t index = table->hash_f(key) % table->size;
    struct htable_entry **target = &table->entries[index];
    for (; *target; target = &(*target)->next) {
        if (table->is_equal_f((*target)->key, key)) {
            (*target)->value = value;
            return true;
        }
    }
''')]),
 ('n-ht-find-helper', [], [(H, '''/**
 * @return value found or NULL if key is not present.
 */
void *HTlookup(struct htable *table, void *key)
{
    size_t index = table->hash_f(key) % table->size;
    if (table->entries[index]) {
        struct htable_entry *last = table->entries[index];
        for (; last; last = last->next) {
            if (table->is_equal_f(last->key, key)) {
                return last->value;
            }
        }
    }
    return NULL;
}''', '''static struct htable_entry *Find(struct htable *table, void *key)
{
    size_t index = table->hash_f(key) % table->size;
    struct htable_entry *e = table->entries[index];
    while (e && !table->is_equal_f(key, e->key)) {
        e = e->next;
    }
    return e;
}
void *HTlookup(struct htable *table, void *key)
{
    struct htable_entry *e = Find(table, key);
    return e ? e->value : NULL;
}''')]),
 ('n-ht-index-helper', [], [(H, 'static\nbool Insert(', 'static size_t Bucket(struct htable *table, void *key) { return table->hash_f(key) % table->size; }\nstatic\nbool Insert('), (H, 'size_t index = table->hash_f(key) % table->size;\n\n    if', 'size_t index = Bucket(table, key);\n\n    if'), (H, 'void *HTremove(htable_st *table, void *key)\n{\n    size_t index = table->hash_f(key) % table->size;', 'void *HTremove(htable_st *table, void *key)\n{\n    size_t index = Bucket(table, key);')]),
 ('n-ht-clear-order', [], [(H, '''    for (size_t i = 0; i < table->size; i++) {
        struct htable_entry *entry = table->entries[i];
        while (entry) {
            struct htable_entry *next = entry->next;
            DeleteEntry(table, entry);
            entry = next;
        }
        table->entries[i] = NULL;
    }
    table->elements = 0;''', '''    table->elements = 0;
    size_t i = 0;
    while (i < table->size) {
        struct htable_entry *entry = table->entries[i];
        table->entries[i] = NULL;
        while (entry != NULL) {
            struct htable_entry *dead = entry;
            entry = entry->next;
            MEMfree(dead);
        }
        i++;
    }''')]),
 ('n-ht-map-for', [], [(H, '''        struct htable_entry *entry = table->entries[i];
        while (entry) {
            entry->value = fun(entry->value);
            entry = entry->next;
        }''', '''        for (struct htable_entry *e = table->entries[i]; e; e = e->next) {
            void *nv = fun(e->value);
            e->value = nv;
        }''')]),
 ('n-ht-iternext', [], [(H, '''    for (size_t i = iter->current_element + 1; i < iter->table->size; ++i) {
        if (iter->table->entries[i] != NULL) {
            iter->current_entry = iter->table->entries[i];
            iter->current_element = i;
            return iter;
        }
    }
''', '''    htable_st *table = iter->table;
    size_t i = iter->current_element;
    while (++i < table->size) {
        struct htable_entry *e = table->entries[i];
        if (!e) { continue; }
        iter->current_element = i;
        iter->current_entry = e;
        return iter;
    }
''')]),
 ('n-ht-cpy-while', [], [(H, '''    for (htable_iter_st *iter = HTiterate(table); iter;
         iter = HTiterateNext(iter)) {
        HTinsert(new_table, HTiterKey(iter), HTiterValue(iter));
    }
''', '''    htable_iter_st *iter = HTiterate(table);
    while (iter != NULL) {
        void *key = HTiterKey(iter);
        void *value = HTiterValue(iter);
        HTinsert(new_table, key, value);
        iter = HTiterateNext(iter);
    }
''')]),
 ('n-ht-strhash', [], [(H, '''    while ((c = *key++))
        hash = ((hash << 5) + hash) + c;
''', '''    for (int i = 0; key[i] != '\\0'; i++) {
        c = key[i];
        hash = hash * 33 + c;
    }
''')]),

 ('cti-nl-only', ['C13'], [(C, """    char *message_header = GetMessageHeader(type);
    HandleCtiCall(type);
    va_list arg_p;

    va_start(arg_p, format);

    PrintMessage(message_header, format, arg_p, newline, &obj);""", """    char *message_header = GetMessageHeader(type);
    if (newline) HandleCtiCall(type);
    va_list arg_p;

    va_start(arg_p, format);

    PrintMessage(message_header, format, arg_p, newline, &obj);""")]),
 ('cti-gt1', ['C13'], [(C, '    if (errors > 0) {', '    if (errors > 1) {')]),
 ('cti-warn', ['C13'], [(C, '    if (errors > 0) {', '    if (errors + warnings > 0) {')]),
 ('cti-exit', ['C13'], [(C, '    CleanUp();\n\n    exit(1);\n}\n\nvoid CTIabortCompilation', '    CleanUp();\n\n    exit(errors ? 0 : 1);\n}\n\nvoid CTIabortCompilation')]),
 ('cti-note', ['C13'], [(C, '    } else if (type == CTI_WARN) {\n        warnings++;', '    } else if (type <= CTI_WARN) {\n        warnings++;')]),
 ('cti-reset', ['C13'], [(C, 'int CTIgetErrorMessageLineLength(void)\n{', 'int CTIgetErrorMessageLineLength(void)\n{\n    errors = 0;')]),
 ('cti-status', ['C13'], [(C, '    CleanUp();\n\n    exit(1);\n}\n\nvoid CTIabortCompilation', '    CleanUp();\n\n    exit(errors);\n}\n\nvoid CTIabortCompilation')]),
 ('n-cti-switch', [], [(C, """    if (type == CTI_ERROR) {
        errors++;
    } else if (type == CTI_WARN) {
        warnings++;
    }""", """    switch (type) {
    case CTI_ERROR:
        errors += 1;
        break;
    case CTI_WARN:
        warnings = warnings + 1;
        break;
    default:
        break;
    }""")]),
 ('n-cti-neg', [], [(C, """    if (errors > 0) {
        AbortCompilation();
    }""", """    if (errors <= 0) {
        return;
    }
    CTIabortCompilation();""")]),
]
