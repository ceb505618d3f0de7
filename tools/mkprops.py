#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the statements)."""
import json, os
P = []
G, PA, AN, IX, UT, LIB = "src/dbml.pest", "src/parser/mod.rs", "src/analyzer/mod.rs", "src/analyzer/indexer.rs", "src/utils/mod.rs", "src/lib.rs"
AST = ["src/ast/schema.rs", "src/ast/table.rs", "src/ast/refs.rs", "src/ast/enums.rs", "src/ast/indexes.rs", "src/ast/unit.rs", "src/ast/project.rs", "src/ast/table_group.rs"]
FIX = "tests/mod.rs compares the unchecked parse of about twenty fixed files with recorded output, asks that every validator file be rejected for any reason (all of them already lack a project block), and that one checked file be accepted"
def p(id, title, st, over, text, why, files, mech, obs, hook=None):
    P.append(dict(id=id, title=title, statement=st, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=obs, hook_needed=hook)))
UN, CH = "parse_dbml_unchecked", "parse_dbml"

p("C01", "Every text is answered without a crash, and always the same way",
  "For every Unicode text, both parse entry points return either a document or an error and never panic or abort, and an error can be displayed and points inside the text. Parsing the same text again gives the same answer. The checked parse fails with the unchecked parse's error whenever that one fails, and when it succeeds it returns the very document the unchecked parse returns.",
  ["inputs"], "all Unicode texts: random text, token soup, damaged documents, large documents, and well-formed documents that are semantically arbitrary",
  FIX + "; none of them looks for a crash, and one in ordinary use (a string default on a varchar without length) was present.",
  [LIB, PA, AN, "src/analyzer/err.rs"], [("grammar-driven parse returning Result", PA), ("semantic check returning Result", AN), ("error construction from a span", "src/analyzer/err.rs")], [UN, CH])
p("C02", "Every declaration appears once, in source order, under its owner",
  "Parsing a well-formed document yields exactly one block per top-level declaration, in source order, and under each block exactly the declared columns, enum values, index definitions and index columns, table group items and project properties, each once, in order, with the declared schema, name, alias and note. An omitted schema, alias, note, index or settings section is reported as absent, an empty one as present and empty. Where a block repeats its note or its indexes section, the last one is kept.",
  ["inputs", "programs"], "all well-formed documents, any mix and number of blocks and members, names bare or quoted",
  FIX + "; the combinations of optional parts, their order and their number are sampled by a few files only.",
  [PA, G] + AST, [("parse_schema / parse_*_decl folding the parse tree into the AST", PA)], [UN + " result: blocks and their member lists"])
p("C03", "Settings are kept as written and their derived flags agree with them",
  "Each settings list of a table, column, enum value, index definition, relationship or table group is reported with exactly its attributes, in order, each with its key and its value if it has one. The derived facts (primary key, unique, nullability, increment, default, note, index type and name, on-delete and on-update action, project database type) say exactly what the attributes say, and nothing is derived from attributes that are absent. A referential action or index type that is not one of the supported ones is rejected.",
  ["inputs"], "all settings lists: any keys, any kinds of values, any order and number, on any kind of owner",
  FIX + "; most keys occur with one kind of value and in one order.",
  [PA, "src/ast/table.rs", "src/ast/indexes.rs", "src/ast/refs.rs"], [("parse_col_settings, parse_indexes_settings, parse_rel_settings, enum settings, parse_attribute", PA)], ["settings of columns, enum values, indexes, refs, tables, groups; ProjectBlock.database_type"])
p("C04", "Names and literal values carry exactly the text or number written",
  "Identifiers (bare or quoted), strings, multi-line strings, integers, decimals, booleans, null, colours, expressions and bare-word values are reported with exactly the text or number written, and with their raw spelling. Quoted identifiers and expressions are verbatim and string values lose only the white space before their first character; text inside quotes that resembles a comment or other syntax stays text. A number that does not fit its integer type is rejected, never altered.",
  ["inputs"], "all identifiers and values allowed by the grammar, in every position they may occur in, including Unicode, empty, very long and boundary values",
  FIX + "; values at boundaries, empty ones, ones that look like other syntax and ones that share a prefix with a keyword do not occur.",
  [G, PA, "src/ast/unit.rs"], [("literal and identifier rules", G), ("parse_ident, parse_value, parse_string_value", PA)], ["Ident, Literal, Value in the AST"])
p("C05", "Relationship declarations keep direction, endpoints and column order",
  "Every relationship, written in short form, block form or inline in a column, is reported once with the written relation kind, and with each side's schema, table or alias, and columns in written order, left as left and right as right. Its name and its update and delete actions are reported as written, and absent ones as absent. An inline relationship is reported at the column that carries it, in order.",
  ["inputs"], "all relationship declarations: four kinds, three forms, one to many columns per side, with or without schema, name and actions",
  FIX + "; block form with schema-qualified composite endpoints, several inline relationships per column and most kind/form pairs do not occur.",
  [PA, G, "src/ast/refs.rs"], [("parse_ref_decl, parse_ref_stmt, parse_ref_ident, parse_ref_inline", PA), ("Relation::from_str", "src/ast/refs.rs")], ["SchemaBlock::refs(), ColumnSettings.refs"])
p("C06", "Column types keep their name, arguments and array dimensions",
  "A column's type is reported with its name (schema-qualified as written), its arguments in order with their values, its array dimensions in order with their sizes, and its raw spelling, whether it is written bare or in quotes, and whether its dimensions are inside or after the quotes. A dimension too large for its type is rejected.",
  ["inputs"], "all column types: schema or not, quoted or not, any number of arguments of any kind, any number of array dimensions",
  FIX + "; a handful of types, and no more than two dimensions or two arguments.",
  [G, PA, "src/ast/table.rs"], [("parse_col_type, build_type_name_with_schema, parse_col_type_arg", PA), ("col_type rules", G)], ["TableColumn.type"])
p("C07", "Every node's source range designates exactly its own text",
  "Every range in a parsed document lies within the source on character boundaries, starts at the first and ends at the last character of the construct it belongs to (a construct whose optional last part is omitted may also take in the white space and comments that follow it). A document's range is the whole text, siblings do not overlap, and a node's range lies within its parent's range, except a table's alias and a relationship's name, which stand outside the range of the name or endpoints they belong to. Wherever raw text is reported, it is the source text at that range.",
  ["inputs"], "all nodes of all well-formed documents, with any layout, comments and multi-byte text",
  FIX + "; ranges are pinned for these layouts only, and multi-byte text before a construct is rare.",
  [PA, "src/parser/helper.rs"] + AST, [("s2r on every node", "src/parser/helper.rs")], ["span_range of every AST node, SchemaBlock.input"])
p("C08", "Layout, comments and keyword case do not change the meaning",
  "Rewriting a document by adding, removing or replacing white space, line breaks (of any convention) and comments between its tokens, or by changing the letter case of its block keywords, does not change whether it parses nor the document it yields, apart from source ranges. The same holds for the verdict of the checked parse.",
  ["inputs", "programs"], "all well-formed documents and all pairs of layouts of the same token sequence",
  FIX + "; no two fixed files are layouts of one document.",
  [G], [("WHITESPACE, COMMENT, case-insensitive keywords", G)], [UN, CH])
p("C09", "Exactly the documents of the DBML grammar are accepted",
  "The unchecked parse accepts every text that is a document of the supported DBML grammar and rejects every other text: nothing malformed, truncated or left over is silently skipped, repaired or ignored. A text that is accepted after a change of its tokens is read as what it now says.",
  ["inputs"], "all texts, in particular documents with tokens or characters deleted, added, replaced, repeated or swapped, and truncated documents",
  FIX + "; no malformed text is known to be rejected because it is malformed.",
  [G, PA], [("grammar rules anchored at start and end of input", G), ("semantic rejection of out-of-range numbers and unsupported words", PA)], [UN])
p("C10", "Documents compose: parsing parts and the whole agrees",
  "Parsing two well-formed documents written one after the other yields the blocks of the first followed by the blocks of the second, with ranges moved by the first one's length. Parsing the text of one block by itself yields that block. What is declared in one block never changes how another is read.",
  ["inputs", "programs"], "all pairs of well-formed documents, and every block of every document",
  FIX + "; no file is parsed in parts.",
  [PA, G], [("block-wise folding without shared state", PA)], [UN])
p("C11", "A checked document has exactly one project, with distinct properties",
  "The checked parse rejects a document without a project block, with more than one, or with a project in which two properties have the same key, naming that rule in the error. It raises none of these errors for a document with one project with distinct property keys, wherever in the document the project stands.",
  ["inputs"], "all documents that are otherwise valid, with zero to several projects at any place and with any property lists",
  FIX + "; the rejections are for lack of a project throughout, so no other rule is tested.",
  [AN, "src/analyzer/helper.rs"], [("project count and property key check", AN)], [CH])
p("C12", "Duplicate names are rejected, and only duplicates are",
  "The checked parse rejects two tables or two enums of the same name in the same schema (no schema meaning the default schema), two columns of one table, two values of one enum, two table groups, two aliases, two items of one group that denote the same table, or two attributes of one settings list with the same key, naming that rule in the error. Names that merely resemble each other (other case, other owner, other schema, other kind) are never reported as duplicates.",
  ["inputs"], "all documents that are otherwise valid, with duplicates or near-duplicates of every kind at any place",
  FIX + "; no file tests a duplicate apart from the missing project, and near-duplicates are not tested at all.",
  [IX, "src/analyzer/helper.rs", AN], [("index_table, index_enums, index_table_groups", IX), ("check_attr_duplicate_keys", "src/analyzer/helper.rs")], [CH])
p("C13", "Names that denote nothing are rejected, and every declared name resolves",
  "The checked parse rejects a relationship endpoint whose schema, table, alias or column is not declared, a table group item that denotes no declared table, and an index on an undeclared column, naming in the error what was not found. A name that is declared anywhere in the document resolves, whether it is written as alias, bare, with the default schema or with its schema, and a schema-qualified name never denotes an alias.",
  ["inputs"], "all documents that are otherwise valid, with references of every form to declared and undeclared names",
  FIX + "; aliases, the default schema and schema-qualified names are not used in any checked file that is accepted (alias and default-schema references were in fact broken).",
  [IX, AN], [("resolve_ref_alias, lookup_table_fields, find_ref_table, index_table_groups", IX), ("index column lookup", AN)], [CH])
p("C14", "Related columns must agree in number and type",
  "The checked parse rejects a relationship whose sides have different numbers of columns or in which two paired columns differ in type, type arguments or array dimensions, naming that rule and both columns with their types as written. Columns whose types are spelled differently but mean the same type are compatible, and enum types are compatible exactly when they are the same enum.",
  ["inputs"], "all relationships between columns of all types, one to many pairs, all kinds and forms",
  FIX + "; one accepted file with equal spellings.",
  [IX, "src/ast/table.rs", AN], [("validate_ref_type type comparison", IX), ("ColumnTypeName::from_str", "src/ast/table.rs")], [CH])
p("C15", "The referenced side of a relationship must be a key",
  "The checked parse rejects a many-to-one or one-to-many relationship whose 'one' side is not a primary or unique key, a one-to-one of which neither side is, and a many-to-many of which not both sides are. A single column is a key if it or an index on exactly that column is primary or unique; several columns are a key if an index on exactly these columns, in any order, is primary or unique. The error names the rule for that kind (one-to-one, many-to-many, or the referenced side of the others) and whether several columns (a composite) are concerned. No relationship that meets this is reported for it.",
  ["inputs"], "all relationships of the four kinds over all key declarations, single and composite, in any column order and both directions",
  FIX + "; one accepted file with few relationships.",
  [IX], [("validate_ref_type key check, is_valid_composite", IX)], [CH])
p("C16", "Two relationships must not claim the same columns",
  "The checked parse rejects two many-to-one or one-to-many relationships with the same columns on the 'many' side, and two one-to-one or two many-to-many relationships between the same pair of column sets, however each is written (inline or not, either direction, by alias, name or schema-qualified name, composite columns in any order). Relationships that do not share them are never reported as conflicting.",
  ["inputs"], "all sets of relationships that are otherwise valid, in all forms and spellings",
  FIX + "; one accepted file, and no conflict is known to be rejected for being one.",
  [IX, AN], [("occupy_same_column", IX), ("pairwise count", AN)], [CH])
p("C17", "A table has at most one primary key, not nullable and not an array",
  "The checked parse rejects a table that declares a primary key more than once (on columns, in indexes, or both), a column set to primary key and null, a column of array type set to primary key, and a column set to both null and not null, naming that rule. It raises none of these errors for other tables.",
  ["inputs"], "all documents that are otherwise valid, with key and nullability settings in every combination and order",
  FIX + "; no such rejection is tested.",
  [AN], [("column and index key bookkeeping per table", AN)], [CH])
p("C18", "Index definitions are consistent and not repeated",
  "The checked parse rejects an index definition without columns, one with more than one of primary, unique and type, a second unique key on the same set of columns or expressions, and a second index on the same list with the same type (or both plain, without settings), naming that rule. Index definitions that differ in columns, expressions or type are never reported as repeated.",
  ["inputs"], "all index sections over columns and expressions with all settings, in every order, with column-level unique keys",
  FIX + "; no such rejection is tested, and distinct expression indexes were in fact rejected.",
  [AN], [("indexes block validation", AN)], [CH])
p("C19", "Type arguments fit the type",
  "The checked parse rejects arguments on a built-in type that takes none, a number of arguments other than one for the length and precision types (character, bit and time types) or other than two for decimals, and arguments that are not integers, naming that rule and, for a wrong number, the number the type takes. Types without arguments and types that are not built in are never rejected for their arguments.",
  ["inputs"], "all built-in types and synonyms, and other types, with zero to several arguments of all kinds",
  FIX + "; no such rejection is tested.",
  [AN, "src/ast/table.rs"], [("argument count and kind check", AN), ("ColumnTypeName::from_str", "src/ast/table.rs")], [CH])
p("C20", "Column defaults fit the column",
  "The checked parse rejects a string default whose length in characters does not fit a fixed or limited character or bit type, an integer default outside the range of smallint or integer, a boolean default on another built-in type, a null default on a column not set to null, and a default on a column of a type that is neither built in nor a declared enum or that is not a value of that enum, naming that rule. A default that fits is never rejected.",
  ["inputs"], "all defaults of all kinds, in particular at the length and range boundaries, on all types",
  FIX + "; no rejection is tested, boundaries and multi-byte text do not occur.",
  [AN, IX], [("default value validation", AN), ("lookup_enum_values", IX)], [CH])
p("C21", "The checked parse accepts exactly the documents without a violation",
  "A well-formed document that violates none of the documented rules (one project, distinct names, resolvable names, compatible relationships with keys and without conflict, consistent keys, indexes, types and defaults) is accepted, and one that violates at least one is rejected with an error naming a rule it violates. This holds for every combination of features and of violations.",
  ["inputs", "programs"], "all well-formed documents: valid ones of any size using all features together, ones with one or several violations, and arbitrary ones",
  FIX + "; exactly one document is known to be accepted and none is known to be rejected for its content.",
  [AN, IX, LIB], [("analyze", AN), ("Indexer", IX)], [CH])
p("C22", "Equivalent spellings of names and relationships get the same verdict",
  "Rewriting a document by replacing a table's alias, bare name and schema-qualified name by one another, by adding or dropping the default schema, by quoting or unquoting identifiers, by moving an inline relationship into a separate declaration, or by turning a relationship around does not change whether the checked parse accepts it. Renaming all identifiers consistently does not change it either.",
  ["inputs", "programs"], "all pairs of a document, valid or not, and an equivalent spelling of it",
  FIX + "; no two files are spellings of one document.",
  [IX, AN, G], [("resolve_ref_alias, default schema", IX), ("IndexedRef::from_inline", IX)], [CH])
p("C23", "The order of declarations does not change the verdict",
  "Reordering the blocks of a document, the columns of a table, the definitions of an index section, the values of an enum, the items of a group or the attributes of a settings list does not change whether the checked parse accepts it. In particular names may be used before they are declared.",
  ["inputs", "programs"], "all pairs of a document, valid or not, and a reordering of it",
  FIX + "; no two files are reorderings of one document.",
  [AN, IX], [("indexing of all declarations before any check that uses them", AN)], [CH])
p("C24", "Errors point at the construct that is at fault",
  "When the checked parse rejects a well-formed document, the error names a rule the document violates and its location lies within the declaration that violates it: the repeated one rather than the first, the endpoint or column not found, the settings, type, default or relationship concerned (for a missing key not the endpoint that need not be one). When a text is malformed, the error location is not beyond the first character that cannot be part of a document, and not before the block that contains it.",
  ["inputs"], "all documents with a violation of any rule at any place, with multi-byte text and any layout; all well-formed documents with one foreign character between two tokens",
  FIX + "; error contents and positions are not looked at.",
  ["src/analyzer/err.rs", AN, IX, PA], [("throw_err with the construct's range", "src/analyzer/err.rs")], ["variant, location and line/column of the returned error"])
p("C25", "The relations of a table are reported completely and in the right direction",
  "For a valid document and each of its tables, the relations query returns each relationship that has this table on its left side only as outgoing, on its right side only as incoming, on both sides as self reference, exactly once each and with its kind and columns unchanged, and no other relationship. It does not matter whether a relationship is inline or separate, or how it spells the table.",
  ["inputs"], "all valid documents with any relationships, asked for every declared table",
  "No test calls the relations query.",
  [UT, AN, IX], [("get_table_refs", UT), ("IndexedRef::from_inline, resolve_ref_alias", IX)], ["get_table_refs (feature utils) on the analysis result"], "cfg(dbml_verif) re-exports the analysis entry point, which the public API keeps private although get_table_refs takes its result")
p("C26", "Block accessors return exactly the blocks of their kind, in order",
  "For every document, parsed or assembled, the accessors for projects, tables, table groups, relationships and enums return exactly the blocks of that kind, each once, in document order, as the very objects stored in the document.",
  ["inputs"], "all block lists: any kinds, any order, any number, with repetitions",
  "No test calls the accessors other than through the checked parse of one file.",
  ["src/ast/schema.rs"], [("SchemaBlock accessors", "src/ast/schema.rs")], ["SchemaBlock::projects/tables/table_groups/refs/enums"])
p("C27", "Vocabulary words convert to their one meaning, and nothing else does",
  "The words for built-in column types (with their synonyms), relations, referential actions, index types, database types and constant values convert to exactly the documented meaning, and every other text, in particular one differing in case, spacing or by a prefix or suffix, is rejected or kept as unknown text. Converting an action or value back to text gives its DBML spelling.",
  ["inputs"], "all texts, in particular all vocabulary words and their near misses, and all values",
  FIX + "; synonyms are met rarely and near misses never.",
  ["src/ast/table.rs", "src/ast/refs.rs", "src/ast/indexes.rs", "src/ast/project.rs", "src/ast/unit.rs"], [("FromStr and ToString implementations", "src/ast")], ["FromStr and ToString of the AST vocabulary types"])
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w").write("".join(json.dumps(x, ensure_ascii=False) + "\n" for x in P))
