TECH = 'contract-based deductive verification: contracts compiled with the real Go code, symbolic execution of its SSA form, loop invariants, obligations discharged by built-in rewriting, z3 and cvc5'
NOTE = 'Every obligation generated from the current /repo source is discharged for all inputs (no bound). Trusted: the verification engine and its Go/text-template semantics, go/ssa, z3, cvc5, the models of the standard library listed in the evidence file; integers are mathematical with unsigned ranges kept; nil and empty slices are identified.'
NOTES = 'check.sh builds the engine (engine/), loads /repo with the contract files of contracts/ overlaid, proves every contract of the property, and runs the same contracts natively on generated inputs to find a concrete failing input when a proof fails.'
PROPS = []
def P(id, title, statement, text, why, files, mech, thm, **kw):
    d = dict(id=id, title=title, statement=statement, text=text, why=why, files=files, mech=mech, thm=thm)
    d.update(kw)
    PROPS.append(d)

P('C01', 'Column types are normalised to one canonical vocabulary',
  'Normalising a column replaces its type by the canonical name (letter case ignored: string→varchar, tinyint/smallint/mediumint/int/integer/bigint/long→int8/int16/int24/int32/int32/int64/int64, numeric→decimal, real→double, timestamp→datetime, tinyblob/blob/mediumblob/longblob→blob8/16/24/32 and the text types likewise, anything else to its lower-case form). No other attribute of the column changes, and normalising again changes nothing.',
  'every column, every type name string', 'Tests normalise no more than a few columns as part of imports; the claim is about every string and about idempotence.',
  ['format/octopus/column.go', 'format/octopus/types.go'], [('type alias table', 'format/octopus/column.go Column.NormalizeType/toNormalizedType')],
  ['octopus.Verif_C01_NormalizeType'])
P('C02', 'Column validation accepts exactly the well-formed columns',
  'A column is accepted exactly when it has a name, its type is one of the documented types, an enum has at least one value, a set has 1 to 64 values, and auto-increment is only on an integer type. With auto-correction, auto-increment on any other type is switched off instead of rejected. Validation changes nothing else.',
  'every column and both validation modes', 'No test calls validation with a malformed column; limits such as 64 set members and the order of checks are only decided over all columns.',
  ['format/octopus/column.go', 'format/octopus/types.go', 'format/octopus/errors.go'], [('checks', 'format/octopus/column.go Column.Validate'), ('type tables', 'format/octopus/types.go')],
  ['octopus.Verif_C02_ValidateColumn'])
P('C03', 'Normalising a schema sorts its tables and cleans every column',
  'A schema that normalises without error has its tables ordered by group and then by name, contains exactly the tables it had before, and every column of every table has its canonical type and passes validation (auto-increment switched off where the type cannot have it). Table attributes, indices, the number and order of columns and all other column attributes stay as they were.',
  'every schema: any number of tables, groups, columns', 'Tests normalise nothing; the ordering and the per-column cleaning range over all tables and columns.',
  ['format/octopus/table.go', 'format/octopus/column.go'], [('sort order', 'format/octopus/table.go TableSlice.Less'), ('normalisation loop', 'format/octopus/table.go Schema.Normalize')],
  ['octopus.Verif_C03_Less', 'octopus.Verif_C03_Normalize'])
P('M01', 'MySQL export writes exactly the DDL the schema describes',
  'Exporting a schema to MySQL writes, for every table the group filter selects and in schema order, one CREATE TABLE IF NOT EXISTS statement: one definition per column (name, MySQL type with size and scale, NOT NULL, AUTO_INCREMENT, DEFAULT, ON UPDATE, COMMENT in this order), then PRIMARY KEY over all primary key columns, one UNIQUE KEY over all unique columns named table plus suffix, and one INDEX per index, separated by commas with none after the last. Each documented column type maps to its MySQL type, sizes are kept for the types that take one, function defaults (fn::name) become name(), and text, enum and set defaults, comments, enum and set members are escaped string literals.',
  'every schema, table filter and unique-name suffix', 'One test exports one schema; which columns appear, in which clause and with which separators is a statement about all schemas.',
  ['format/mysql/exporter.go', 'util/string.go', 'util/types.go', 'format/octopus/column.go'],
  [('type map', 'format/mysql/exporter.go Exporter.ToMysqlColumnType'), ('constraints', 'format/mysql/exporter.go Exporter.ColumnConstraints'), ('statement assembly', 'format/mysql/exporter.go Exporter.exportTable, ExportTemplate'), ('table selection', 'format/mysql/exporter.go Exporter.Export')],
  ['mysql.Verif_M01_ColumnType', 'mysql.Verif_M01_Constraints', 'mysql.Verif_M01_Table', 'mysql.Verif_M01_Schema'])
P('C04', 'Lookups find the tables, columns and indices that are there',
  'Looking up a table, column or index by name gives the first one with exactly that name and nothing when there is none; maps by name hold every table or column under its name. The primary-key and unique-key name sets and the list of groups contain exactly the names that occur, each once, sorted. A reference resolves to its table and column exactly when both exist.',
  'every schema, table, name and reference', 'The lookups are only exercised on single-table schemas, if at all.',
  ['format/octopus/table.go', 'util/set.go'], [('lookups', 'format/octopus/table.go'), ('string set', 'util/set.go StringSet')],
  ['octopus.Verif_C04_' + n for n in ['TableByName', 'ColumnByName', 'IndexByName', 'ColumnNameMap', 'TablesByName', 'PKSet', 'UniqueSet', 'FindReference', 'Groups']] + ['util.Verif_C04_SetSlice'])
P('C05', 'Function defaults and column type texts round-trip',
  'A default or on-update value is read back as a function call with the name it was set to exactly when it carries the fn:: marker, and otherwise as the plain value; setting one value changes no other attribute and setting nothing clears it. The text of a column type is the type name with the size, or size and scale, in parentheses when the size is not zero.',
  'every column, every value text', 'No test sets or reads function values, and none formats a type with size and scale.',
  ['format/octopus/column.go'], [('fn:: values', 'format/octopus/column.go getValue, SetDefaultValueFn, SetOnUpdateFn'), ('type text', 'format/octopus/column.go Column.Format')],
  ['octopus.Verif_C05_Values', 'octopus.Verif_C05_Format'])
P('C06', 'The groups option selects exactly the tables of the named groups',
  'Without groups there is no filter; with a comma separated list a table is selected exactly when its group is one of the entries, compared as a whole and case-sensitively.',
  'every groups text and every table', 'No test uses the groups option with more than one group or with an unknown one.',
  ['format/octopus/filter.go'], [('filter function', 'format/octopus/filter.go GetTableFilterFn')], ['octopus.Verif_C06_GroupFilter'])
P('C07', 'Per-group prefixes and annotations apply to their group only',
  'A prefix or annotation option without any group:value entry applies to every group as given. With entries, each group gets the value of its own last entry (the text after the first colon; annotations split at semicolons), entries without a colon are ignored, and a group without entry gets nothing.',
  'every option text and group name', 'No test uses an option with several groups or malformed entries.',
  ['format/common/prefix.go', 'format/common/annotation.go'], [('prefixes', 'format/common/prefix.go'), ('annotations', 'format/common/annotation.go')],
  ['common.Verif_C07_Prefix', 'common.Verif_C07_Annotation'])
P('E01', 'PlantUML export draws every table, column and reference',
  'The diagram holds, between @startuml and @enduml, one entity per table in schema order with one line per column (star when not null, name, type, PK/UQ/FK marks), a separator before the first column that is not a primary key, and afterwards one relation line per referencing column with the arrow of its relationship (many-to-one when unspecified). Nothing else is written and nothing is left out.',
  'every schema', 'No test generates PlantUML.',
  ['format/plantuml/generator.go'], [('diagram', 'format/plantuml/generator.go Generator.Generate, getColumnDef, getRelationshipType')],
  ['plantuml.Verif_E01_Column', 'plantuml.Verif_E01_Schema'])
P('E02', 'QuickDBD export lists every table and column with its attributes',
  'The text holds, per table in schema order, its name with the description as comment, a dashed line of the length of the name, one line per column (name, type, PK, UNIQUE, AUTOINCREMENT, NULLABLE, default, foreign key with the arrow of its relationship, description) in this order, and an empty line. Nothing else is written and nothing is left out.',
  'every schema', 'No test exports QuickDBD.',
  ['format/quickdbd/exporter.go'], [('export', 'format/quickdbd/exporter.go Exporter.Export, getColumnDef, getRelationshipType')],
  ['quickdbd.Verif_E02_Column', 'quickdbd.Verif_E02_Schema'])
P('E03', 'DBML export writes every selected table and each reference once',
  'The text holds one Table block per table the group filter selects, in schema order, with one line per column: name, type with size and scale, and in brackets pk, unique, not null, default (quoted for character types), reference and note, as far as set. A reference to a table written before stands in its column, every other reference stands once after all tables, and nothing is lost.',
  'every schema and table filter', 'No test exports DBML; whether a reference is inline or deferred depends on the order of all tables.',
  ['format/dbml/exporter.go'], [('export', 'format/dbml/exporter.go Exporter.exportToString')], ['dbml.Verif_E03_Schema'])
P('P01', 'Protobuf generation gives every table a message with unique field numbers',
  'The file declares proto3 syntax, the package and go_package option as far as set, every import its messages need once and sorted, and one message per selected table in schema order, named after the table without the prefixes to remove, in camel case, behind the prefix of its group. A message has one field per column with the type of the column, numbered 1, 2, 3 in column order, followed by one field per column that references a table of the schema, typed with the message of that table and repeated for one-to-many relations. Relation fields are numbered upwards, or downwards when asked for, from the given start, which moves when needed so that no number is used twice.',
  'every schema and option set', 'No test generates protobuf definitions.',
  ['format/protobuf/generator.go', 'util/memoization.go', 'util/set.go', 'util/string.go'], [('messages', 'format/protobuf/generator.go newPbMessage, newPbField'), ('file text', 'format/protobuf/generator.go generateProto')],
  ['protobuf.Verif_P01_' + n for n in ['Field', 'Name', 'Message', 'Tags', 'Text', 'Schema']] + ['util.Verif_C04_Memoizer'])
P('S01', 'SQLAlchemy generation turns every table into a complete, importable class',
  'Each table the group filter selects becomes one class, in schema order, named after its class name, or else after the table without the prefixes to remove, in camel case, behind the prefix of its group, with its table name and, when several columns are unique, one named unique constraint over them. Every column becomes one attribute, in order: lower snake-case name (with an underscore appended to reserved words of Python, and the column name given when it differs), SQLAlchemy type with size, precision and scale, creation and update time defaults (UTC when asked for), and the primary key, unique, auto-increment and not-null flags. The classes are written to the given .py file, or one file per table in the given directory, each file with exactly the imports its classes use.',
  'every schema and option set', 'No test generates SQLAlchemy classes.',
  ['format/sqlalchemy/generator.go', 'format/sqlalchemy/sqlalchemy.go', 'util/set.go', 'util/string.go', 'util/io.go'], [('classes', 'format/sqlalchemy NewSaClass, NewSaField'), ('text', 'format/sqlalchemy/generator.go Generator.Generate')],
  ['util.Verif_S01_Reserved'] + ['sqlalchemy.Verif_S01_' + n for n in ['Field', 'Class', 'Header', 'Single', 'Directory', 'DirectoryRun']],
  note='The .py file of the single-file mode is the name models.py in the proof; the directory and the table names of the other mode are arbitrary strings.')
P('G01', 'Gorm generation turns every table into a complete Go struct',
  'The Go file declares the given package (main by default), imports exactly what its fields and embedded models need, and has one struct per table the group filter selects, in schema order, named after its class name, or else after the table without the prefixes to remove, in camel case, behind the prefix of its group, with a TableName method that gives the table name. A struct embeds, in name order, every known model (gorm.Model and the one the embed option defines) all of whose columns the table has and no earlier model took, and has one field for each other column, in order: camel-case name (ID instead of Id at the end, an underscore before a digit), Go type by column type and nullability, and a gorm tag with the column name when the field name does not give it, sized type, primary key, unique or shared unique index, every index of the column with its position in it, auto-increment and not null. One field for each reference to a column of the schema follows, typed with the struct of that table (a slice for one-to-many, a pointer when asked for), with foreign key and referenced field.',
  'every schema, option set and set of known models', 'Tests generate two small schemas; which model is embedded depends on the columns of all models and the tag on every attribute of column, table and indices.',
  ['format/gorm/generator.go', 'format/gorm/gorm.go', 'format/gorm/gorm_model.go', 'util/set.go', 'util/string.go'], [('fields', 'format/gorm/gorm.go NewGoField'), ('structs', 'format/gorm/gorm.go NewGoStruct'), ('embedded models', 'format/gorm/gorm_model.go extractEmbeddedModels'), ('text', 'format/gorm/generator.go Generator.Generate, GenerateStruct')],
  ['util.Verif_G01_ContainsAll'] + ['gorm.Verif_G01_' + n for n in ['Field', 'Name', 'Contains', 'Taken', 'Embedded', 'Struct', 'Index', 'Sized', 'Text', 'Embed', 'Default', 'Schema']],
  note='The embed option is covered for definitions of the documented form with at least one column.')
P('J01', 'Kotlin generation turns every table into a complete JPA entity class',
  'Each table the group filter selects becomes one data class in a file of its own in the directory of the package given, named after its class name, or else after the table without the prefixes to remove, in camel case, behind the prefix of its group, with the annotations of its group, the table name and a named unique constraint when columns are unique, an id class of all key fields when several columns are primary keys, the id interface when asked for and the only key field is called id, and exactly the imports needed. Every column becomes one property, in order: lower camel-case name, Kotlin type by column type, nullable unless the column is not, a default value of that type when it has one, and the annotations for key, generated value, large text, relation (when asked for), creation and update time, and the column (its name when it cannot be derived, nullability, length, precision, scale). When a repository package is given, each class with a primary key gets one repository interface in the directory of that package, typed with the class and its key type.',
  'every schema whose relations lead to generated classes, every option set', 'One test generates one table; which attribute ends in which annotation of which property is a statement about all columns of all tables.',
  ['format/jpa/kotlin.go', 'format/jpa/kotlin-gen.go', 'format/octopus/types.go', 'format/common/annotation.go', 'format/common/prefix.go', 'util/io.go', 'util/set.go', 'util/string.go'], [('properties', 'format/jpa/kotlin.go NewKotlinField'), ('classes', 'format/jpa/kotlin.go NewKotlinClass'), ('annotations', 'format/jpa/kotlin-gen.go getFieldAnnotations'), ('text', 'format/jpa/kotlin-gen.go GenerateEntityClass, generateRepository'), ('files', 'format/jpa/kotlin-gen.go generateEntities, generateRepositories')],
  ['jpa.Verif_J01_' + n for n in ['Field', 'Class', 'ClassOf', 'Annotations', 'Entity', 'Repository', 'Generator', 'Files', 'FilesRun']],
  note='The comparison of property pointers in the template (is this the last one, is this the id) is read as comparison of their contents: the columns of a table are taken to differ in something. A relation to a table without class ends the program and is outside the contracts.')
P('Q01', 'GraphQL generation turns every table into a complete type with a query',
  'The .graphqls file named after the name and version of the schema, in the directory given, has a schema entry, a Query type with one list query for each table the group filter selects (plural of the lower camel-case class name), and one type for each of these tables, all in schema order. A type is named after the class name of the table, or else after the table without the prefixes to remove, in camel case, behind the prefix of its group, and has one field for each column, in order: lower camel-case name and GraphQL type by column type, with an exclamation mark when the column is not nullable; the key column of a table with exactly one is the ID.',
  'every schema and option set', 'No test generates GraphQL.',
  ['format/graphql/generator.go', 'format/common/prefix.go'], [('fields', 'format/graphql/generator.go NewField'), ('types', 'format/graphql/generator.go NewClass'), ('file', 'format/graphql/generator.go Generator.Generate')],
  ['graphql.Verif_Q01_Field', 'graphql.Verif_Q01_Class', 'graphql.Verif_Q01_Generate'],
  note='The contract of NewClass, which writes through a pointer shared by two slices, is a bounded stand-in: it is executed on generated tables, not proved, and used at its call. Plural forms are those of the pluralize library (uninterpreted).')
P('O01', 'Importing a version 1 ojson file keeps every table and column',
  'The schema imported from a version 1 ojson file keeps author, name and version and has exactly the tables of the file with their group, class name and description, ordered by group and then name. Each table has exactly the columns of the file in the same order with name, size, scale, nullability, primary-key, unique and auto-increment flags, default value, description and reference. Known type names are mapped (letter case ignored) to the version 1 vocabulary and then lose auto-increment unless the type is int or long; other type names stay as they are.',
  'every version 1 file whose columns have names', 'No test imports a version 1 file; which attribute ends where is a statement about all columns of all tables.',
  ['format/ojson/importer.go', 'format/ojson/types.go', 'format/ojson/column.go', 'format/ojson/table.go'], [('import', 'format/ojson/importer.go Importer.ImportFile, fromOjsonTable'), ('normalisation', 'format/ojson/table.go Schema.Normalize, format/ojson/column.go normalizeColumnType'), ('file keys', 'struct tags of format/ojson')],
  ['ojson.Verif_O01_Import', 'ojson.Verif_O01_Keys', 'ojson.Verif_O01_Less', 'ojson.Verif_O01_Table', 'ojson.Verif_O01_Type'])
P('O02', 'Schema files are read and written whole, normalised, or not at all',
  'Reading a .json or .ojson file (letter case ignored) yields exactly the normalised form of the schema it holds, and an error when that schema does not normalise; files with other extensions are rejected. Writing a schema writes its normalised form to the given file, or, when it does not normalise, an error and no file. The keys of the file are the documented ones, so that nothing written is lost when it is read again.',
  'every schema', 'No test reads or writes a schema file.',
  ['format/octopus/io.go', 'format/octopus/table.go', 'format/octopus/column.go'], [('reading', 'format/octopus/io.go LoadSchema'), ('writing', 'format/octopus/table.go Schema.ToFile'), ('file keys', 'struct tags of format/octopus')],
  ['octopus.Verif_O02_Keys', 'octopus.Verif_O02_Load', 'octopus.Verif_O02_Extension', 'octopus.Verif_O02_Save'])
P('K01', 'Every command does exactly what its command-line options say',
  'Each import, export, generate and diff command reads the files its options name and runs its importer, exporter, generator or comparison with exactly the settings given by its documented options, under their long or short names: table groups (comma separated), package names, class-name prefixes and prefixes to remove, author, version, excluded tables, unique-name suffix, comments, relation tags and the other flags of each command. What comes out is written to the output named and nothing else is written; gorm and PlantUML write output.go or output.plantuml into the directory named when the output has not their file extension (letter case ignored). A command fails exactly when reading, the conversion or writing fails, and init writes db.json when no output is named.',
  'every schema and option value', 'No test runs a command; options are wired by hand in every command.',
  ['main.go'] + ['format/%s/cli.go' % p for p in 'dbml diff gorm graphql jpa liquibase mysql octopus ojson plantuml protobuf quickdbd sqlalchemy staruml xlsx'.split()] + ['util/io.go'],
  [('commands', 'main.go importCommand, exportCommand, generateCommand, diffCommand, initCommand'), ('options', 'format/*/cli.go CliFlags'), ('actions', 'format/*/cli.go Action')],
  ['main.Verif_K01_*', 'dbml.Verif_K01_Dbml', 'diff.Verif_K01_Flyway', 'diff.Verif_K01_Liquibase', 'diff.Verif_K01_Markdown', 'gorm.Verif_K01_Gorm', 'graphql.Verif_K01_Graphql', 'jpa.Verif_K01_Kotlin', 'liquibase.Verif_K01_Liquibase', 'mysql.Verif_K01_Export', 'mysql.Verif_K01_Import', 'octopus.Verif_K01_Init', 'ojson.Verif_K01_Ojson', 'plantuml.Verif_K01_Plantuml', 'protobuf.Verif_K01_Protobuf', 'quickdbd.Verif_K01_Quickdbd', 'sqlalchemy.Verif_K01_Sqlalchemy', 'staruml.Verif_K01_Staruml', 'xlsx.Verif_K01_Export', 'xlsx.Verif_K01_Import'],
  note='Two documented options are not implemented by any generator and have no effect: graphqlPackage of generate graphql and useUTC of generate kt. The generators themselves are taken as deterministic functions of their arguments (checked syntactically where possible, listed as assumed otherwise).')
P('D01', 'The difference of two schemas lists every change once, in order',
  'Comparing two schemas yields, for the tables the group filter selects, the changes of every table both have, then the dropped tables, the renamed tables (same columns under a new name) and the new tables, numbered consecutively per table and change. A changed table lists its comment change, the changes of each column both have (type with size and scale, comment, nullability, auto-increment, default value), then dropped, renamed (a new column that agrees with a removed one) and added columns and the new primary and unique keys, with the old unique key dropped first. Comments count only when asked for, and each added or removed table or column appears exactly once, as added, dropped or renamed.',
  'every pair of schemas and every option', 'No test compares two schemas.',
  ['format/diff/diff.go', 'format/diff/changeset.go', 'format/octopus/table.go', 'format/octopus/column.go', 'util/set.go'], [('columns', 'format/diff/diff.go diffColumn'), ('tables', 'format/diff/diff.go diffTable'), ('schemas', 'format/diff/diff.go getDiff')],
  ['diff.Verif_D01_Column', 'diff.Verif_D01_Table', 'diff.Verif_D01_Schema'],
  note='Maps keyed by table or column pointers are read as keyed by the content of the table or column, in the code and in the contract alike.')
P('D02', 'The Markdown report puts every kind of change into words',
  'Each change is reported on one line that names the change and what it changes: the old and new name of a renamed table or column, the old and new primary key columns, the columns of a unique key, the old and new type with size and scale, the new comment, default value, nullability or auto-increment state. Key columns are listed in name order; no kind of change is reported as an error.',
  'every change of every kind', 'No test writes a report.',
  ['format/diff/markdown.go', 'format/octopus/table.go', 'format/octopus/column.go', 'util/set.go'], [('lines', 'format/diff/markdown.go MarkdownChangeSetWriter.toMarkdownLine')],
  ['diff.Verif_D02_Line'])
P('D03', 'The Flyway script carries out the changes it covers, in order',
  'The script holds the statements of all changes in order, each on its own line, and an empty line after each change set. Creating a table writes its CREATE TABLE statement; dropping and renaming a table, a new primary key (dropping the old one first if there is one), an added column and a changed NOT NULL or auto-increment state write the ALTER, DROP or RENAME statement with the full MySQL type and constraints of the column. The other kinds of change are not covered by Flyway output.',
  'every list of change sets, every unique-name suffix', 'No test writes a script; the statements depend on every attribute of tables and columns.',
  ['format/diff/flyway.go', 'format/diff/mysql.go', 'format/mysql/exporter.go'], [('statements', 'format/diff/mysql.go MysqlQueryBuilder.ToSQL'), ('script', 'format/diff/flyway.go FlywayChangeSetWriter.Write')],
  ['diff.Verif_D03_Statements', 'diff.Verif_D03_Script'])
P('D04', 'The Markdown report has one section per changed table, in name order',
  'The report names the versions of both schemas and then has exactly one section for each table that changed, ordered by table name, holding the lines of all changes of that table in the order they were found. Nothing is left out and nothing is written twice.',
  'every list of change sets', 'No test writes a report.',
  ['format/diff/markdown.go', 'util/multimap.go'], [('report', 'format/diff/markdown.go MarkdownChangeSetWriter.Write'), ('grouping', 'util/multimap.go SMultiMap')],
  [], level='other', tech='contract of the real code executed on generated inputs (bounded stand-in for the deductive proof)',
  fullnote='Bounded, not proved: the multimap with interface keys and sort.Slice over interface values are outside the verifier; the same contract is executed against the real code on generated reports (a few changes and tables per report, fixed seed and time limit, see the evidence file).')
