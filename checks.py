"""What each check executes; read by check.py. Entries are harness.entry: harness/<harness>.cpp."""
CHECKS = {}
def on(harness, entries): return [harness + '.' + e for e in entries.split()]
def check(prop, quick, thorough=(), **kw): CHECKS[prop] = dict(quick=list(quick), thorough=list(thorough), **kw)
DOC = 'in every document the letters of names, the digits of numbers, the letter case of every keyword and the kind of every blank are symbolic'

check('C02', on('lexer', 'tiles1 tiles2 tiles3 tiles6'), on('lexer', 'tiles4'),
      bounds='every byte sequence of up to 3 bytes, every sequence of 6 bytes over the alphabet of structural characters (quick); every sequence of 4 bytes (thorough)', outside='longer inputs; the mode in which the scanner starts is the initial one')
check('C03', on('lexer', 'any0 any1 any2 any3 numbers operators phrases phrases3 utf8 utf8_5'), on('lexer', 'any4 numbers7'),
      bounds='every byte sequence of up to 3 bytes (4 thorough); longer ones over number, operator, phrase and UTF-8 alphabets', outside='longer inputs over the full byte alphabet')
check('C04', on('lexer', 'words words_rest near_words_plain cut_words'), on('lexer', 'near_words'),
      bounds='each of the 280 words in every letter case; every word in upper and in lower case (thorough: any mixture) with any one letter replaced by any byte, or cut in two', outside='words that differ from every keyword in two or more places')
check('C05', on('lexer', 'quoted') + on('value', 'strings strings_places strings5 hex concatenations') + on('names', 'delimited'), on('lexer', 'quoted6'),
      bounds='every sequence over quotes, backslash, newline and two representatives after an opening quote (6 long, thorough 7); strings with up to 5 free bytes', outside='longer quoted texts')
check('C06', on('lexer', 'comments') + on('doc', 'layout_query layout_table layout_function layout_type layout_dml layout_ddl layout_predicate layout_literal layout_contents'), on('lexer', 'comments7'),
      bounds='every byte sequence over the comment alphabet (6 bytes, 7 thorough); one blank or comment of every form placed in every gap of every reviewed statement', outside='several comments in one statement beyond those of the harness')
check('C08', on('names', 'restricted restricted_delimited underscores'),
      bounds='every identifier of the listed shapes, in every role that takes a name', outside='longer identifiers')
check('C09', on('expr', 'arithmetic3 arithmetic4 parenthesized signs suffixes'),
      bounds='chains of up to 4 binary operators, every operator; one sign or two; one suffix; ' + DOC, outside='longer chains, deeper nesting')
check('C10', on('expr', 'logical logical4 not_forms comparison comparison_not_chained quantified predicate_forms predicate_others') + on('corpus', 'predicate'),
      bounds='chains of up to 4 AND/OR with NOT before any operand; every predicate form with every operand shape of the list; ' + DOC, outside='longer chains, deeper nesting')
check('C11', on('setop', 'operands options forms forms2 options2 chain3 chain4 chain5 in_with parenthesized with with_operand'),
      bounds='chains of up to 5 set operators, every operator, quantifier and CORRESPONDING option; ' + DOC, outside='longer chains')
check('C12', on('names', 'words_as_names words_as_columns contextual_everywhere contextual_roles regular delimited'),
      bounds='each keyword in every letter case in the roles listed, every name of up to 4 free characters', outside='longer names')
check('C13', on('doc', 'layout_query layout_table layout_function layout_type layout_dml layout_ddl layout_predicate layout_literal layout_contents'), on('doc', 'layout_contents_all'),
      bounds='one separator (blank, newline, comment of either kind with free contents) in every gap of every reviewed statement', outside='longer comments')
check('C14', on('doc', 'list1 list2 list3 list4 list5 list_broken list_separator'),
      bounds='up to 5 statements of every listed kind, separators and blanks symbolic; an error in any one of them', outside='longer documents')
check('C15', on('value', 'numbers long_numbers strings strings_places strings5 hex concatenations temporal words literal_needs') + on('corpus', 'literal'),
      bounds='numbers of up to 6 free characters and up to 40 free digits; strings of up to 5 free bytes; every literal form; ' + DOC, outside='longer literals')
check('C16', on('value', 'types arrays type_needs sizes_beyond') + on('corpus', 'type'),
      bounds='every type, with every combination of its parameters; ' + DOC, outside='nested arrays deeper than the harness')
check('C17', on('value', 'functions_simple functions_special functions_places using_names trim extract set_functions count_all invocations methods static_methods new_objects cases cast_operands elements array_values parentheses rows subqueries dereference sequences function_needs') + on('corpus', 'function'),
      bounds='every function and value form with up to 3 arguments or branches of the listed shapes; ' + DOC, outside='longer argument lists, deeper nesting')
check('C18', on('statement', 'insert insert_values update update_values remove truncate change_needs privilege_actions privilege_lists privilege_lists3 privilege_users3 privilege_needs') + on('corpus', 'dml'),
      bounds='every combination of clauses with up to 3 elements in each list; ' + DOC, outside='longer lists')
check('C19', on('statement', 'table_head column_constraints column_constraint_lists table_constraints table_elements column_names index index_where view view_query schema drop alter definition_needs') + on('corpus', 'ddl'),
      bounds='every combination of options, constraints and elements with up to 3 elements in each list; ' + DOC, outside='longer lists')
check('C20', on('select', 'sources sources3 source_needs_alias join_kinds join_operands join_right join_chain join_chain3 join_parenthesized join_nested join_needs apply_arguments') + on('corpus', 'table'), on('select', 'join_chain4'),
      bounds='chains of up to 3 joins (4 thorough) of every kind and specification; up to 3 sources of every form; ' + DOC, outside='longer chains')
check('C21', on('doc', 'placeholders1 placeholders3 placeholder_places'), on('doc', 'placeholders4 placeholders6'),
      bounds='up to 3 placeholders (6 thorough) in every expression role listed', outside='longer documents')
check('C22', on('doc', 'description description3 description_place description_columns description_contents'), on('doc', 'description_columns2 description_schema'),
      bounds='up to 3 comments of every kind before a definition, before up to 2 columns; contents of 4 free bytes', outside='longer comments')
check('C26', on('options', 'defaults writes separate map map_signed print order'), sources='options',
      bounds='every 64-bit value of every option; every sequence of three assignments to any options, then a move construction and a move assignment; every pair and triple of element kinds',
      outside='longer assignment sequences')
check('C27', on('enums', 'names unique stream'), sources='options',
      bounds='every enumerator, and every pair of enumerators, of the 57 enumerations that have names', outside='the two enumerations whose headers need yugawara')
check('C32', on('value', 'sizes_small sizes_large sizes_beyond'), on('value', 'sizes_medium'),
      bounds='every size of 1 to 4 digits, every 20-digit size beginning 184467440737095516 with up to two leading zeros, larger sizes with up to four free digits (thorough: sizes of 6 digits as well), in every place that takes a size', outside='longer digit sequences')
check('C33', on('statement', 'sequence2 sequence3 identity2 identity3 sequence_head sequence_values'), on('statement', 'sequence4 identity4'),
      bounds='every sequence of up to 3 options (4 thorough), each with every value form', outside='longer option lists')
check('C36', on('options', 'find'), sources='options',
      bounds='every byte string of 0 to 32 bytes (the longest name has 28)', outside='longer strings')
check('C38', on('select', 'columns column_values column_conditions clauses clause_conditions clause_values clause_order sorting sorting_values rows row_values names') + on('corpus', 'query'),
      bounds='every combination of clauses with up to 3 elements in each list; ' + DOC, outside='longer lists, deeper nesting')
check('C01', on('robust', 'any0 any1 any2 any3 any4 cut begun left_out tokens1 tokens2 tokens_select tokens_from tokens_create tokens_insert replaced_literal'),
      on('robust', 'tokens3 tokens_select3 replaced_query replaced_dml replaced_predicate replaced_ddl replaced_type replaced_table replaced_function'),
      bounds='every byte sequence of up to 4 bytes; every beginning, every ending and every one-byte omission of every reviewed statement; every sequence of 2 of 48 tokens at the beginning and after four statement beginnings; any byte at any place of the literals (thorough: of all reviewed statements; 3 tokens)',
      outside='longer free documents')
check('C07', on('diagnostics', 'character_places character_forms unclosed_comment'),
      bounds='every character that is not of the language (every control byte, every single byte, every well-formed and unfinished UTF-8 sequence) after every third beginning of the reviewed statements and among the listed neighbours; unclosed comments with up to 4 free bytes', outside='longer documents')
check('C23', on('diagnostics', 'candidates_limit end_of_document unexpected_image expected_tokens'), on('diagnostics', 'expected_query expected_table expected_type expected_function expected_dml expected_ddl expected_predicate'),
      bounds='any number of candidates (64 bits); 40 places (thorough: every fourth to seventh gap of the reviewed statements) with each of the words and tokens of the language; ' + DOC, outside='other places')
check('C24', on('limits', 'elements other_elements separate_lists'),
      bounds='46 lists covering each kind, up to 4 elements, any 64-bit limit for the kind, and limits of the other kinds; ' + DOC, outside='longer lists')
check('C25', on('limits', 'tree_query tree_table tree_literal tree_type tree_function tree_dml tree_ddl tree_predicate tree_statements tree_lists tree_growth'),
      bounds='every reviewed statement, every pair of the listed statements, lists of up to 3 elements; any two 64-bit limits', outside='larger documents')
check('C31', on('robust', 'independent independent_bytes parser_options document'),
      bounds='every reviewed statement before and after each of 9 others, every 2-byte document; every 64-bit value of the options', outside='parsers used by several threads at the same time')
check('C29', on('region', 'shifted query table literal type function dml ddl predicate'), defines=['SERIALIZE_REGION'],
      bounds='every node of every reviewed statement (3095 nodes), the image of each read again in 40 contexts; each statement after each of 7 texts; ' + DOC, outside='other documents; regions of values that are not nodes')
check('C28', on('containers', 'region_values region_union region_parts region_text regioned_values'),
      bounds='every pair (triple for the union) of regions of any 64-bit positions; parts at any 32-bit position, offset and size; printed positions below 10', outside='printing larger positions; parts of regions beyond 2^33')
check('C30', on('equality', 'itself twins_differ clones renames any_pair words_left_out layout units wrappers replaced_query replaced_table replaced_literal replaced_dml'),
      on('equality', 'replaced_type replaced_function replaced_ddl replaced_predicate inserted_query inserted_table inserted_literal inserted_type inserted_function inserted_dml inserted_ddl inserted_predicate'), defines=['SERIALIZE_REGION'],
      bounds='every reviewed statement with free names against itself with other names, against every other of its kind, and against itself with any one token left out, doubled or replaced by each of 53 others (thorough: all kinds, and insertions); documents of up to 3 statements; every pair of nodes of one family among 190 made to have the same values; ' + DOC, outside='trees that no reviewed statement or one-token edit gives')
check('C34', on('containers', 'diagnostics results'),
      bounds='every code, messages of up to 2 free bytes, documents of up to 4 free bytes with every region, any 64-bit counts', outside='longer messages and documents')
check('C35', on('dispatch', 'statements others type_kinds literal_kinds'),
      bounds='every node that the harness reaches in the reviewed statements (each of the kinds of each family), with a free argument; each class of types and literals with each kind', outside='kinds that no class has')

check('C37', on('parts', 'accessors_query accessors_table accessors_literal accessors_type accessors_function accessors_dml accessors_ddl accessors_predicate'),
      bounds='every accessor (both forms) of every node and element of every reviewed statement; ' + DOC, outside='nodes that no reviewed statement has')
check('C39', on('parts', 'words_query words_table words_literal words_type words_function words_dml words_ddl words_predicate'),
      bounds='every operator, kind, option, flag, size and text with a place of its own in every node of every reviewed statement; ' + DOC, outside='other documents')
