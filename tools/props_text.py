YY = 'src/mizugaki/parser/sql_parser.yy'; LL = 'src/mizugaki/parser/sql_scanner.ll'; DRV = 'src/mizugaki/parser/sql_driver.cpp'
prop('C09', 'Arithmetic operators group by the documented precedence and associativity',
  'In every arithmetic expression, signs apply before * / %, these before + - ||, and operators of one level group from the left; parentheses override, and AT LOCAL, AT TIME ZONE and :: apply to the primary before them. A sign in front of an unsigned number becomes part of that number.',
  ['inputs', 'programs'], 'every operator sequence, operand name and letter case within the bound', T.format(n='expression'),
  [YY, DRV], [('precedence declarations and scalar_value_expression', YY), ('try_fold_literal', DRV)])
prop('C10', 'Logical operators and predicates keep their structure, negation and options',
  'NOT binds before AND, AND before OR, each grouping from the left and all after predicates; every comparison, quantified comparison, BETWEEN, IN, LIKE, SIMILAR TO, EXISTS, UNIQUE, OVERLAPS and truth test yields a tree with exactly the written operator, operands in order, negation and options. Comparisons do not associate: a chain of two is rejected.',
  ['inputs', 'programs'], 'every combination of operators, predicates and negations within the bound', T.format(n='predicate'),
  [YY], [('value_expression and predicate_expression', YY)])
prop('C26', 'Parser options: documented defaults, independent, retained over moves',
  'A fresh set of parser options has the documented defaults (5 expected candidates, no node, depth or element limit, description comments on, debug off). Every option reads back the value assigned last, no assignment changes another option or another options object, and moves keep all values.',
  ['inputs', 'histories'], 'every value of every option, every sequence of assignments within the bound, every pair of element kinds', 'tests read a few defaults; independence ranges over all values and assignment sequences',
  ['include/mizugaki/parser/sql_parser_options.h', 'src/mizugaki/parser/sql_parser_options.cpp', 'include/mizugaki/parser/sql_parser_element_kind.h'], [('accessors', 'src/mizugaki/parser/sql_parser_options.cpp'), ('element map', 'include/mizugaki/parser/sql_parser_element_kind.h')], ['option accessors', 'element map'])
prop('C27', 'Every enumerator has its own documented name, also when streamed',
  'For every public enumeration that has names, each enumerator is printed with its own spelling, no two enumerators share a spelling or a value, and streaming prints exactly that name.',
  ['inputs'], 'every enumerator and every pair of enumerators', 'only one enumeration is tested today, and only by samples',
  ['include/mizugaki/ast', 'include/mizugaki/parser', 'include/mizugaki/analyzer'], [('to_string_view and operator<< of each enumeration', 'include/mizugaki/**/*.h')], ['to_string_view', 'operator<<'])
prop('C36', 'Element kinds are found by exactly their names',
  'Looking up an element kind by name succeeds exactly for the names of the kinds and returns the kind with that name; every other text, including prefixes, extensions and other letter cases of names, yields nothing.',
  ['inputs'], 'every byte string within the bound', 'the test tries each name once and one unknown name',
  ['include/mizugaki/parser/sql_parser_element_kind.h'], [('find_sql_parser_element_kind', 'include/mizugaki/parser/sql_parser_element_kind.h')], ['find_sql_parser_element_kind'])
A = 'src/mizugaki/ast'; SC = 'src/mizugaki/parser/sql_scanner.cpp'; PG = 'sql_parser_generated.cpp'
TC = 'the {n} tests sample single documents; the statement ranges over every byte sequence within the bound'
prop('C02', 'Every byte of a document lies in exactly one token, comment or blank',
  'The regions of the tokens and comments that the scanner reports are inside the document, in order, not empty and disjoint, and what lies between them is white space only; the end of file is reported once, at the end of the document. So each region denotes exactly the text it was made from.',
  ['inputs'], 'every byte sequence within the bound', TC.format(n='scanner'), [LL, SC], [('YY_USER_ACTION, location()', SC), ('rules', LL)], ['tokens and their regions', 'comments'])
prop('C03', 'The scanner splits text by longest match into the documented tokens',
  'At every position the scanner takes the longest token of the language there: identifiers, numbers (exact and approximate), quoted texts, operators, punctuation, comments and multi-word phrases each have the documented spelling, and everything else is reported as one character that does not belong to the language.',
  ['inputs'], 'every byte sequence within the bound', TC.format(n='scanner'), [LL, SC], [('rules and macros', LL)], ['token kinds and values'])
prop('C04', 'Exactly the documented words are key words, in any letter case',
  'Every key word is recognized in every mixture of letter cases as the key word of its own spelling, and no other text is: a text that differs in one place, is longer or shorter, or is separated is an identifier or another token.',
  ['inputs'], 'every word, letter case and one-place change within the bound', 'about 280 words with 2^n letter cases each; tests use some of them in upper case', [LL], [('key word rules', LL)], ['token kinds'])
prop('C05', 'Quoted texts keep their contents and end only at their closing quote',
  'Character strings, delimited identifiers and hexadecimal and bit strings extend from the opening to the closing quote, whatever bytes lie between: escapes and doubled quotes do not end them, their contents appear in the tree exactly as written, adjacent strings are joined in order, and an unclosed text is rejected.',
  ['inputs'], 'every content within the bound', TC.format(n='literal'), [LL, YY], [('quoted tokens', LL), ('string concatenation', YY)], ['token values', 'parser result'])
prop('C06', 'Comments are skipped whole and nothing inside them is interpreted',
  'A line comment extends to the end of its line, a block comment to the first */, whatever they contain; neither changes the tokens around it, a comment start inside a quoted text or another comment has no meaning, and an unclosed block comment is reported as such.',
  ['inputs', 'programs'], 'every comment content within the bound and every place in a statement', TC.format(n='comment'), [LL, SC], [('comment states', LL)], ['tokens', 'parser result'])
prop('C08', 'Names starting with two underscores are refused wherever a name is written',
  'An identifier that starts with two underscores is rejected with a diagnostic that denotes exactly that identifier, in every role, whether the identifier is regular or delimited; one underscore followed by another character and underscores elsewhere are accepted unchanged.',
  ['inputs', 'programs'], 'every identifier and role within the bound', 'tests try one restricted name in few roles', [LL, YY, DRV], [('identifier rule', LL), ('restricted identifiers', SC)], ['parser result', 'diagnostic'])
prop('C11', 'Set operators keep grouping, quantifier and CORRESPONDING of each operand',
  'INTERSECT binds before UNION and EXCEPT, operators of one level group from the left, parentheses override; each operator carries exactly its own ALL, DISTINCT and CORRESPONDING columns, operands stay in order, and a WITH clause belongs to the whole query it precedes and is refused inside an operand.',
  ['programs'], 'every operator sequence and option within the bound', T.format(n='query'), [YY], [('query_expression rules', YY)])
prop('C12', 'Contextual key words serve as names, reserved words never do',
  'Every word that is not reserved is accepted as a name in any letter case and keeps its spelling; a reserved word is accepted as a name only when it is delimited; names keep their letters, digits, underscores and letter case exactly.',
  ['inputs', 'programs'], 'every key word in each listed role, every name within the bound', T.format(n='name'), [YY, LL], [('contextual_identifier', YY), ('identifier rule', LL)])
prop('C13', 'Layout between tokens never changes the meaning of a statement',
  'Replacing the white space between any two tokens by any other white space, line break or comment, or inserting them where two tokens touch, gives the same tree; none of them can join or split tokens.',
  ['programs'], 'every gap of every listed statement, every separator within the bound', 'tests use one layout per statement', [LL, YY], [('white space and comment rules', LL)])
prop('C14', 'A document is its statements in order; an error in any one rejects it',
  'Statements separated by semicolons appear in the compilation unit in written order, each as it would alone; empty statements are kept except a last empty one, and an error in any statement rejects the document with a diagnostic inside that statement.',
  ['programs'], 'every list of statements within the bound', 'tests try one list of two', [YY, DRV], [('program and statement list', YY)])
prop('C15', 'Literals denote exactly the written value',
  'Every number, string, date, time, interval, boolean, NULL and DEFAULT appears in the tree as the kind of literal it is and with exactly the digits, sign and characters written; malformed literals are rejected.',
  ['inputs'], 'every literal within the bound', T.format(n='literal'), [YY, LL, DRV, A + '/literal'], [('literal rules', YY), ('literal nodes', A + '/literal')])
prop('C16', 'Types keep their kind, parameters and modifiers, and refuse others',
  'Every type expression yields the type of its name with exactly the written length, precision, scale, VARYING, WITH TIME ZONE and array size, absent ones staying absent; parameters that a type does not have, and sizes out of range, are rejected.',
  ['inputs', 'programs'], 'every type form and parameter within the bound', T.format(n='type'), [YY, DRV, A + '/type'], [('data_type rules', YY), ('sizes', DRV), ('type nodes', A + '/type')])
prop('C17', 'Value expressions and function calls keep function, arguments and options',
  'Every function call, special-form function, set function, CASE, CAST, constructor, subquery, method call, dereference and sequence value yields the node of that form with exactly the named function and the written arguments in order, quantifiers and options; malformed calls are rejected.',
  ['programs'], 'every form with the argument counts within the bound', T.format(n='scalar expression'), [YY, LL, A + '/scalar'], [('value expression primaries', YY), ('nodes', A + '/scalar')])
prop('C18', 'Data manipulation and privilege statements keep every clause',
  'INSERT, UPDATE, DELETE, TRUNCATE, GRANT and REVOKE yield a tree with exactly the written target, columns, values, conditions, options, actions, objects and users, in order; incomplete ones are rejected.',
  ['programs'], 'every combination of clauses within the bound', T.format(n='statement'), [YY, A + '/statement'], [('statement rules', YY), ('nodes', A + '/statement')])
prop('C19', 'Definition statements keep every column, constraint and option',
  'CREATE TABLE, INDEX, VIEW, SCHEMA, SEQUENCE, DROP and ALTER statements yield a tree with exactly the written name, columns with types, constraints, options, parameters and conditions, in order; contradicting or incomplete ones are rejected.',
  ['programs'], 'every combination of options and elements within the bound', T.format(n='statement'), [YY, A + '/statement'], [('definition rules', YY), ('nodes', A + '/statement')])
prop('C20', 'Table expressions keep joins, operands, aliases, columns and grouping',
  'Joins group from the left unless parenthesized, and each keeps its kind, its operands in order and exactly its own ON or USING specification; table references, subqueries, UNNEST, functions and APPLY keep ONLY, WITH ORDINALITY, alias and column names. A join that needs a specification is refused without one.',
  ['programs'], 'every chain, kind and form within the bound', T.format(n='table expression'), [YY, A + '/table'], [('table_reference rules', YY), ('nodes', A + '/table')])
prop('C21', 'Placeholders are numbered from one in written order over the document',
  'The n-th placeholder (?) of a document becomes the placeholder reference of index n, whatever statements and expressions lie between, question marks in quoted texts and comments do not count, and placeholders are accepted wherever a value is.',
  ['programs'], 'every document within the bound', 'tests try one statement with two', [YY, DRV], [('placeholder_reference', YY)])
prop('C22', 'A definition gets exactly the documentation comments written before it',
  'Documentation comments directly before a CREATE statement or a column definition become the description of that definition and of no other, in order and with exactly their text; ordinary comments and comments elsewhere are never taken.',
  ['programs'], 'every sequence of comments within the bound', 'tests try single comments before a table', [YY, DRV, SC, 'src/mizugaki/parser/document_map.h'], [('description comments', DRV), ('comment list', SC)])
prop('C32', 'Sizes are read exactly or refused',
  'A length, precision, scale, array size or similar number appears in the tree with exactly the value of its digits, leading zeros included, and a number that does not fit is refused with a diagnostic, never wrapped, clipped or read as another option.',
  ['inputs'], 'every digit sequence within the bound in every place', 'only small sizes are tested', [YY, DRV], [('to_size', DRV), ('type rules', YY)])
prop('C33', 'Sequence and identity options: each at most once, in any order, exact',
  'Sequence definitions and identity columns accept their options in any order, each kind at most once, keep exactly the written values with their signs, and refuse repeated or contradicting options.',
  ['programs'], 'every option sequence within the bound', 'tests try each option alone', [YY, DRV, A + '/statement'], [('sequence generator options', YY), ('identity constraint', YY)])
prop('C37', 'Each accessor of a node gives exactly the part that it names',
  'For every node and element, each accessor gives exactly the part, operator, option or value that the printed form of the node shows under that name; the form for constant nodes and the form for modification refer to the same part; whatever a node prints is one of its parts; the flags of types (varying, flexible size) agree with their kind and size.',
  ['programs'], 'every accessor of every node of every document within the bound', 'tests read some accessors of nodes that they construct', [A, 'include/mizugaki/ast'], [('accessors, serialize', A)], ['accessors', 'printed trees'])
prop('C39', 'Every operator, option and kind is placed at the words that express it',
  'Operators, kinds, options, flags, sizes and texts that have a place of their own in a node are placed exactly at the words or characters of the document that express them, inside their node (the sign of a number stands before it); those without a place are the ones that no word expresses.',
  ['programs'], 'every placed value of every node of every document within the bound', 'tests do not look at these places', [YY, DRV, 'include/mizugaki/ast/common/regioned.h'], [('grammar actions: regioned', YY)], ['regions of values'])
prop('C38', 'SELECT queries keep every clause with its contents and order',
  'A query yields a tree with exactly its quantifier, columns with aliases, sources, WHERE, GROUP BY, HAVING, ORDER BY with directions and NULLS order, LIMIT and row constructors, in order; clauses in another order or without contents are rejected.',
  ['programs'], 'every combination of clauses within the bound', T.format(n='query'), [YY, A + '/query'], [('query rules', YY), ('nodes', A + '/query')])
prop('C01', 'Any document ends in exactly one well-formed outcome: a tree or a diagnostic',
  'For every text, the parser ends without undefined behaviour and either with a compilation unit whose statements all exist, or with a diagnostic that has a code, a message and a region inside the document, and shows exactly the text of that region; never both, never neither.',
  ['inputs'], 'every document within the bound', 'tests try a fixed handful of documents; the statement ranges over arbitrary bytes', [YY, LL, DRV, SC, 'src/mizugaki/parser/sql_parser.cpp', 'include/mizugaki/parser/sql_parser_result.h'], [('operator()', 'src/mizugaki/parser/sql_parser.cpp'), ('grammar actions', YY), ('scanner rules', LL)], ['parser result', 'diagnostic', 'memory accesses'])
prop('C07', 'What is not part of the language is refused and marked exactly',
  'Every character that does not belong to SQL, including control characters and malformed or unfinished UTF-8, is refused wherever it stands, with a diagnostic that marks exactly that character and names it; an unclosed comment is refused with its opening marked.',
  ['inputs', 'programs'], 'every such character and place within the bound', 'tests try single characters', [LL, DRV, SC], [('invalid character rules', LL)], ['diagnostic'])
prop('C23', 'A syntax error marks the unexpected token and lists exactly what can follow',
  'A token that does not fit is refused with its own region and text; the listed expected tokens are exactly those with which the document could go on, each once, names first and standing for the words that are names too, cut to the configured number of candidates; a document that ends too early is refused at its end.',
  ['inputs', 'programs'], 'every place, token and candidate limit within the bound', 'tests try a few errors and do not look at the candidates', [YY, DRV, 'src/mizugaki/parser/sql_parser.cpp'], [('yyreport_syntax_error', YY), ('candidates', DRV)], ['diagnostic'])
prop('C24', 'Limits on the number of elements hold for each kind separately and exactly',
  'A list with more elements than the limit of its kind is refused with a diagnostic that names kind and limit; every list within the limits is accepted with the same tree as without limits, whatever the limits of other kinds; zero means no limit, and each list is counted on its own.',
  ['inputs', 'programs'], 'every list of the listed kinds and every 64-bit limit', 'tests try one limit for each kind', [YY, DRV, 'include/mizugaki/parser/sql_parser_element_kind.h'], [('element counting', DRV)])
prop('C25', 'Limits on nodes and depth of the tree are exact, monotone and independent',
  'A document is accepted exactly if its numbers of nodes and levels do not exceed the limits (zero: none); the counts reported do not depend on the limits, grow with the document, and never change the tree; the refusal says which limit was exceeded.',
  ['inputs', 'programs'], 'every document within the bound, every pair of 64-bit limits', 'tests try one limit', [YY, DRV], [('node counting', DRV)])
prop('C31', 'A parse depends on its document and options only',
  'Parsing gives the same outcome whatever was parsed before with the same parser, with another parser or failed; a parser keeps its options through runs and moves, and a document object parses as its text does and is the one the tree refers to.',
  ['histories', 'inputs'], 'every pair of documents within the bound, every option value', 'tests use a fresh parser for each document', ['src/mizugaki/parser/sql_parser.cpp', DRV, SC], [('operator()', 'src/mizugaki/parser/sql_parser.cpp')])
prop('C29', 'The region of every node denotes exactly the text the node was made from',
  'Every node and element of a tree has a region; it lies inside the document, begins and ends with a token, includes the regions of its parts, and its text read on its own in a place for such a part gives a node of the same kind and contents with the same region. (The sign of a number stands outside the number; a name with a parenthesized beginning extends from its first to its last identifier.)',
  ['programs'], 'every node of every document within the bound', 'tests look at the region of statements only', [YY, DRV, 'include/mizugaki/ast/node_region.h'], [('grammar actions: @$', YY)], ['regions of nodes'])
prop('C28', 'Regions form a union algebra and are compared, cut and printed by their ends',
  'A region is valid exactly if both ends are; equality, hash and text depend on the ends only; the union of regions is the smallest that includes them, whatever order or grouping, and invalid regions add nothing; a part of a region has its offset and size and stays inside; values with regions are compared by value.',
  ['inputs'], 'every pair and triple of regions within the bound', 'tests try a few numbers', ['include/mizugaki/ast/node_region.h', 'src/mizugaki/ast/node_region.cpp', 'include/mizugaki/ast/common/regioned.h'], [('operators', 'src/mizugaki/ast/node_region.cpp'), ('operator()', 'include/mizugaki/ast/node_region.h')], ['results of the operators'])
prop('C30', 'Trees are equal exactly if their contents are; clones are deep and equal',
  'Two trees compare equal exactly if they have the same kinds, names, values, options and parts in the same order, whatever their layout, and equality is reflexive (for every node and element) and symmetric; a clone equals its origin, has the same regions, shares nothing with it and survives it; moved trees keep their contents.',
  ['programs'], 'every pair of trees within the bound', 'tests compare some nodes with themselves', [A, 'include/mizugaki/ast/compare_utils.h', 'include/mizugaki/ast/common/clone_wrapper.h'], [('operator==, equals, clone', A), ('eq', 'include/mizugaki/ast/compare_utils.h')], ['operator==', 'clone'])
prop('C34', 'Results and diagnostics keep exactly what they were made from',
  'A result has either a value or a diagnostic and keeps it and the counts over moves; a diagnostic keeps its code, message, document and region over copies and moves, is valid exactly if it has a code or a message, and shows exactly the text of its region.',
  ['inputs', 'histories'], 'every value within the bound', 'tests read results of a few parses', ['src/mizugaki/parser/sql_parser_result.cpp', 'src/mizugaki/parser/sql_parser_diagnostic.cpp'], [('accessors', 'src/mizugaki/parser/sql_parser_result.cpp'), ('contents', 'src/mizugaki/parser/sql_parser_diagnostic.cpp')], ['accessors'])
prop('C35', 'Every node is dispatched as its own class, and has a kind of its class',
  'Dispatching a node calls the callback exactly once with that very node as an object of its own class, constant exactly if it is, with the given arguments, and returns the result; a class of types or literals can be made with exactly the kinds it implements and refuses others.',
  ['programs', 'inputs'], 'every node and kind within the bound', 'tests dispatch some nodes', ['include/mizugaki/ast/scalar/dispatch.h', 'include/mizugaki/ast/statement/dispatch.h', 'include/mizugaki/ast/type/kind.h', A + '/type/utils.h'], [('dispatch', 'include/mizugaki/ast/*/dispatch.h'), ('validate_kind', A + '/type/utils.h')], ['callbacks', 'constructors'])
