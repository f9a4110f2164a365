# The supported SQL syntax and what every construct means.
#
#   lhs : symbols => value | symbols => value ...
#
# Quoted symbols and upper-case words are tokens; an empty right-hand side is written <empty>.
# $i is the value of the i-th symbol, Class(field=...) a tree node whose other fields have their defaults,
# upd(x, field=...) the node x with changed fields, [..] and app(list, x) lists (app(None, x) is [x]),
# reject(message) a semantic error at the start of the construct. any is an unspecified value. Without "=>", the value is $1.

%left     OR
%left     AND
%right    NOT
%nonassoc '=' EQUALS NOTEQUALS LIKE ILIKE
%nonassoc '<' '>' LESS GREATER LESSEQ GREATEREQ
%nonassoc NOTNULL
%nonassoc ISNULL
%nonassoc IS
%left     '+' '-'
%left     '*' '/' '%'
%left     '^'
%left     CONCAT
%right    UMINUS
%left     '[' ']'
%left     '(' ')'
%left     '.'
%left     JOIN

input : statement_list opt_semicolon => result($1)

statement_list : statement => [upd($1, stringLength=SLICE)]
 | statement_list ';' statement => app($1, upd($3, stringLength=SLICE))

statement : prepare_statement opt_hints => upd($1, hints=$2)
 | preparable_statement opt_hints => upd($1, hints=$2)
 | show_statement
 | import_statement
 | export_statement

preparable_statement : select_statement | create_statement | insert_statement | delete_statement | truncate_statement
 | update_statement | drop_statement | alter_statement | execute_statement | transaction_statement

opt_hints : WITH HINT '(' hint_list ')' => $4 | <empty> => None
hint_list : hint => [$1] | hint_list ',' hint => app($1, $3)
hint : IDENTIFIER => Expr(type=kExprHint, name=$1)
 | IDENTIFIER '(' extended_literal_list ')' => Expr(type=kExprHint, name=$1, exprList=$3)

transaction_statement : BEGIN opt_transaction_keyword => TransactionStatement(command=kBeginTransaction)
 | ROLLBACK opt_transaction_keyword => TransactionStatement(command=kRollbackTransaction)
 | COMMIT opt_transaction_keyword => TransactionStatement(command=kCommitTransaction)
opt_transaction_keyword : TRANSACTION => void | <empty> => void

prepare_statement : PREPARE IDENTIFIER FROM prepare_target_query => PrepareStatement(name=$2, query=$4)
prepare_target_query : STRING
execute_statement : EXECUTE IDENTIFIER => ExecuteStatement(name=$2)
 | EXECUTE IDENTIFIER '(' opt_extended_literal_list ')' => ExecuteStatement(name=$2, parameters=$4)

import_statement : IMPORT FROM file_type FILE file_path INTO table_name => ImportStatement(type=$3, filePath=$5, schema=$7.schema, tableName=$7.name)
 | COPY table_name FROM file_path opt_import_export_options opt_where => ImportStatement(type=$5.format, filePath=$4, schema=$2.schema, tableName=$2.name, whereClause=$6, encoding=$5.encoding, csv_options=$5.csv_options)

file_type : IDENTIFIER => kImportCSV if ieq($1, "csv") else kImportTbl if ieq($1, "tbl") else kImportBinary if ieq($1, "binary") or ieq($1, "bin") else reject("File type is unknown.")
file_path : STRING

opt_import_export_options : WITH '(' import_export_options ')' => $3
 | '(' import_export_options ')' => $2
 | <empty> => ImportExportOptions()

import_export_options : import_export_options ',' FORMAT file_type => reject("File type must only be provided once.") if $1.format != kImportAuto else reject("CSV options (DELIMITER, NULL, QUOTE) are only allowed for CSV files.") if $1.csv_options != None and $4 != kImportCSV and $4 != kImportAuto else upd($1, format=$4)
 | FORMAT file_type => ImportExportOptions(format=$2)
 | import_export_options ',' ENCODING STRING => reject("Encoding type must only be provided once.") if $1.encoding != None else upd($1, encoding=$4)
 | ENCODING STRING => ImportExportOptions(encoding=$2)
 | import_export_options ',' csv_option => reject("CSV options (DELIMITER, NULL, QUOTE) are only allowed for CSV files.") if $1.format != kImportAuto and $1.format != kImportCSV else upd($1, csv_options=csv_add($1.csv_options, $3))
 | csv_option => ImportExportOptions(csv_options=csv_add(None, $1))
csv_option : IDENTIFIER STRING => pair(CsvOptionType.Delimiter, $2) if ieq($1, "DELIMITER") else pair(CsvOptionType.Quote, $2) if ieq($1, "QUOTE") else reject("Unknown CSV option.")
 | NULL STRING => pair(CsvOptionType.Null, $2)

export_statement : COPY table_name TO file_path opt_import_export_options => ExportStatement(type=$5.format, filePath=$4, schema=$2.schema, tableName=$2.name, encoding=$5.encoding, csv_options=$5.csv_options)
 | COPY select_with_paren TO file_path opt_import_export_options => ExportStatement(type=$5.format, filePath=$4, select=$2, encoding=$5.encoding, csv_options=$5.csv_options)

show_statement : SHOW TABLES => ShowStatement(type=kShowTables)
 | SHOW COLUMNS table_name => ShowStatement(type=kShowColumns, schema=$3.schema, name=$3.name)
 | DESCRIBE table_name => ShowStatement(type=kShowColumns, schema=$2.schema, name=$2.name)

create_statement : CREATE TABLE opt_not_exists table_name FROM IDENTIFIER FILE file_path => CreateStatement(type=kCreateTableFromTbl, ifNotExists=$3, schema=$4.schema, tableName=$4.name, filePath=$8) if ieq($6, "tbl") else reject("File type is unknown.")
 | CREATE TABLE opt_not_exists table_name '(' table_elem_commalist ')' => reject() if pending_error() else CreateStatement(type=kCreateTable, ifNotExists=$3, schema=$4.schema, tableName=$4.name, columns=only($6, ColumnDefinition), tableConstraints=only($6, TableConstraint))
 | CREATE TABLE opt_not_exists table_name AS select_statement => CreateStatement(type=kCreateTable, ifNotExists=$3, schema=$4.schema, tableName=$4.name, select=$6)
 | CREATE INDEX opt_not_exists opt_index_name ON table_name '(' ident_commalist ')' => CreateStatement(type=kCreateIndex, ifNotExists=$3, indexName=$4, schema=$6.schema, tableName=$6.name, indexColumns=$8)
 | CREATE VIEW opt_not_exists table_name opt_column_list AS select_statement => CreateStatement(type=kCreateView, ifNotExists=$3, schema=$4.schema, tableName=$4.name, viewColumns=$5, select=$7)

opt_not_exists : IF NOT EXISTS => True | <empty> => False
table_elem_commalist : table_elem => [$1] | table_elem_commalist ',' table_elem => app($1, $3)
table_elem : column_def | table_constraint
column_def : IDENTIFIER column_type opt_column_constraints => column($1, $2, $3.constraints, $3.references)

column_type : BIGINT => ColumnType(data_type=DataType.BIGINT)
 | BOOLEAN => ColumnType(data_type=DataType.BOOLEAN)
 | CHAR '(' INTVAL ')' => ColumnType(data_type=DataType.CHAR, length=$3)
 | CHARACTER_VARYING '(' INTVAL ')' => ColumnType(data_type=DataType.VARCHAR, length=$3)
 | DATE => ColumnType(data_type=DataType.DATE)
 | DATETIME => ColumnType(data_type=DataType.DATETIME)
 | DECIMAL opt_decimal_specification => ColumnType(data_type=DataType.DECIMAL, precision=$2.first, scale=$2.second)
 | DOUBLE => ColumnType(data_type=DataType.DOUBLE)
 | FLOAT => ColumnType(data_type=DataType.FLOAT)
 | INT => ColumnType(data_type=DataType.INT)
 | INTEGER => ColumnType(data_type=DataType.INT)
 | LONG => ColumnType(data_type=DataType.LONG)
 | REAL => ColumnType(data_type=DataType.REAL)
 | SMALLINT => ColumnType(data_type=DataType.SMALLINT)
 | TEXT => ColumnType(data_type=DataType.TEXT)
 | TIME opt_time_precision => ColumnType(data_type=DataType.TIME, precision=$2)
 | TIMESTAMP => ColumnType(data_type=DataType.DATETIME)
 | VARCHAR '(' INTVAL ')' => ColumnType(data_type=DataType.VARCHAR, length=$3)
opt_time_precision : '(' INTVAL ')' => $2 | <empty> => 0
opt_decimal_specification : '(' INTVAL ',' INTVAL ')' => ipair($2, $4) | '(' INTVAL ')' => ipair($2, 0) | <empty> => ipair(0, 0)

opt_column_constraints : column_constraints | <empty> => ColumnConstraints(constraints=setof(), references=[])
column_constraints : column_constraint => ColumnConstraints(constraints=setof($1), references=[])
 | column_constraints column_constraint => upd($1, constraints=add($1.constraints, $2))
 | references_spec => ColumnConstraints(constraints=setof(ConstraintType.ForeignKey), references=[$1])
 | column_constraints references_spec => upd($1, constraints=add($1.constraints, ConstraintType.ForeignKey), references=app($1.references, $2))
column_constraint : PRIMARY KEY => ConstraintType.PrimaryKey | UNIQUE => ConstraintType.Unique | NULL => ConstraintType.Null | NOT NULL => ConstraintType.NotNull

table_constraint : PRIMARY KEY '(' ident_commalist ')' => TableConstraint(type=ConstraintType.PrimaryKey, columnNames=$4)
 | UNIQUE '(' ident_commalist ')' => TableConstraint(type=ConstraintType.Unique, columnNames=$3)
 | FOREIGN KEY '(' ident_commalist ')' references_spec => ForeignKeyConstraint(type=ConstraintType.ForeignKey, columnNames=$4, references=$6)
references_spec : REFERENCES table_name opt_column_list => ReferencesSpecification(schema=$2.schema, table=$2.name, columns=$3)

drop_statement : DROP TABLE opt_exists table_name => DropStatement(type=kDropTable, ifExists=$3, schema=$4.schema, name=$4.name)
 | DROP VIEW opt_exists table_name => DropStatement(type=kDropView, ifExists=$3, schema=$4.schema, name=$4.name)
 | DEALLOCATE PREPARE IDENTIFIER => DropStatement(type=kDropPreparedStatement, name=$3)
 | DROP INDEX opt_exists IDENTIFIER => DropStatement(type=kDropIndex, ifExists=$3, indexName=$4)
opt_exists : IF EXISTS => True | <empty> => False
alter_statement : ALTER TABLE opt_exists table_name alter_action => AlterStatement(ifTableExists=$3, schema=$4.schema, name=$4.name, action=$5)
alter_action : drop_action
drop_action : DROP COLUMN opt_exists IDENTIFIER => DropColumnAction(ifExists=$3, columnName=$4)

delete_statement : DELETE FROM table_name opt_where => DeleteStatement(schema=$3.schema, tableName=$3.name, expr=$4)
truncate_statement : TRUNCATE table_name => DeleteStatement(schema=$2.schema, tableName=$2.name)
insert_statement : INSERT INTO table_name opt_column_list VALUES '(' extended_literal_list ')' => InsertStatement(type=kInsertValues, schema=$3.schema, tableName=$3.name, columns=$4, values=$7)
 | INSERT INTO table_name opt_column_list select_no_paren => InsertStatement(type=kInsertSelect, schema=$3.schema, tableName=$3.name, columns=$4, select=$5)
opt_column_list : '(' ident_commalist ')' => $2 | <empty> => None
update_statement : UPDATE table_ref_name_no_alias SET update_clause_commalist opt_where => UpdateStatement(table=$2, updates=$4, where=$5)
update_clause_commalist : update_clause => [$1] | update_clause_commalist ',' update_clause => app($1, $3)
update_clause : IDENTIFIER '=' expr => UpdateClause(column=$1, value=$3)

select_statement : opt_with_clause select_with_paren => upd($2, withDescriptions=$1)
 | opt_with_clause select_no_paren => upd($2, withDescriptions=$1)
 | opt_with_clause select_with_paren set_operator select_within_set_operation opt_order opt_limit => upd($2, withDescriptions=$1, setOperations=app($2.setOperations, upd($3, nestedSelectStatement=$4, resultOrder=$5, resultLimit=$6)))
select_within_set_operation : select_with_paren | select_within_set_operation_no_parentheses
select_within_set_operation_no_parentheses : select_clause
 | select_clause set_operator select_within_set_operation => upd($1, setOperations=app($1.setOperations, upd($2, nestedSelectStatement=$3)))
select_with_paren : '(' select_no_paren ')' => $2 | '(' select_with_paren ')' => $2
select_no_paren : select_clause opt_order opt_limit opt_locking_clause => upd($1, order=$2, limit=$3 if $3 != None else $1.limit, lockings=$4)
 | select_clause set_operator select_within_set_operation opt_order opt_limit opt_locking_clause => upd($1, setOperations=app($1.setOperations, upd($2, nestedSelectStatement=$3, resultOrder=$4, resultLimit=$5)), lockings=$6)
set_operator : set_type opt_all => upd($1, isAll=$2)
set_type : UNION => SetOperation(setType=kSetUnion, isAll=any) | INTERSECT => SetOperation(setType=kSetIntersect, isAll=any) | EXCEPT => SetOperation(setType=kSetExcept, isAll=any)
opt_all : ALL => True | <empty> => False
select_clause : SELECT opt_top opt_distinct select_list opt_from_clause opt_where opt_group => SelectStatement(limit=$2, selectDistinct=$3, selectList=$4, fromTable=$5, whereClause=$6, groupBy=$7)
opt_distinct : DISTINCT => True | <empty> => False
select_list : expr_list
opt_from_clause : from_clause | <empty> => None
from_clause : FROM table_ref => $2
opt_where : WHERE expr => $2 | <empty> => None
opt_group : GROUP BY expr_list opt_having => GroupByDescription(columns=$3, having=$4) | <empty> => None
opt_having : HAVING expr => $2 | <empty> => None
opt_order : ORDER BY order_list => $3 | <empty> => None
order_list : order_desc => [$1] | order_list ',' order_desc => app($1, $3)
order_desc : expr opt_order_type opt_null_ordering => OrderDescription(type=$2, expr=$1, null_ordering=$3)
opt_order_type : ASC => kOrderAsc | DESC => kOrderDesc | <empty> => kOrderAsc
opt_null_ordering : <empty> => NullOrdering.Undefined
 | IDENTIFIER IDENTIFIER => NullOrdering.First if ieq($1, "nulls") and ieq($2, "first") else NullOrdering.Last if ieq($1, "nulls") and ieq($2, "last") else reject("Expected NULLS FIRST or NULLS LAST ordering.")
opt_top : TOP int_literal => LimitDescription(limit=$2) | <empty> => None
opt_limit : LIMIT expr => LimitDescription(limit=$2)
 | OFFSET expr => LimitDescription(offset=$2)
 | LIMIT expr OFFSET expr => LimitDescription(limit=$2, offset=$4)
 | LIMIT ALL => LimitDescription()
 | LIMIT ALL OFFSET expr => LimitDescription(offset=$4)
 | <empty> => None

expr_list : expr_alias => [$1] | expr_list ',' expr_alias => app($1, $3)
opt_extended_literal_list : extended_literal_list | <empty> => None
extended_literal_list : casted_extended_literal => [$1] | extended_literal_list ',' casted_extended_literal => app($1, $3)
casted_extended_literal : extended_literal | CAST '(' extended_literal AS column_type ')' => Expr(type=kExprCast, expr=$3, columnType=$5)
extended_literal : literal => reject("Parameter ? is not a valid literal.") if $1.type == kExprParameter else $1
 | '-' num_literal => Expr(type=kExprOperator, opType=kOpUnaryMinus, expr=$2)
 | '-' interval_literal => Expr(type=kExprOperator, opType=kOpUnaryMinus, expr=$2)
expr_alias : expr opt_alias => $1 if $2 == None else upd($1, alias=$2.name)

expr : operand | between_expr | logic_expr | exists_expr | in_expr
operand : '(' expr ')' => $2
 | array_index | scalar_expr | unary_expr | binary_expr | case_expr | function_expr | extract_expr | cast_expr | array_expr
 | '(' select_no_paren ')' => Expr(type=kExprSelect, select=$2)
scalar_expr : column_name | literal
unary_expr : '-' operand => Expr(type=kExprOperator, opType=kOpUnaryMinus, expr=$2)
 | NOT operand => Expr(type=kExprOperator, opType=kOpNot, expr=$2)
 | operand ISNULL => Expr(type=kExprOperator, opType=kOpIsNull, expr=$1)
 | operand IS NULL => Expr(type=kExprOperator, opType=kOpIsNull, expr=$1)
 | operand IS NOT NULL => Expr(type=kExprOperator, opType=kOpNot, expr=Expr(type=kExprOperator, opType=kOpIsNull, expr=$1))
binary_expr : comp_expr
 | operand '-' operand => Expr(type=kExprOperator, opType=kOpMinus, expr=$1, expr2=$3)
 | operand '+' operand => Expr(type=kExprOperator, opType=kOpPlus, expr=$1, expr2=$3)
 | operand '/' operand => Expr(type=kExprOperator, opType=kOpSlash, expr=$1, expr2=$3)
 | operand '*' operand => Expr(type=kExprOperator, opType=kOpAsterisk, expr=$1, expr2=$3)
 | operand '%' operand => Expr(type=kExprOperator, opType=kOpPercentage, expr=$1, expr2=$3)
 | operand '^' operand => Expr(type=kExprOperator, opType=kOpCaret, expr=$1, expr2=$3)
 | operand LIKE operand => Expr(type=kExprOperator, opType=kOpLike, expr=$1, expr2=$3)
 | operand NOT LIKE operand => Expr(type=kExprOperator, opType=kOpNotLike, expr=$1, expr2=$4)
 | operand ILIKE operand => Expr(type=kExprOperator, opType=kOpILike, expr=$1, expr2=$3)
 | operand CONCAT operand => Expr(type=kExprOperator, opType=kOpConcat, expr=$1, expr2=$3)
logic_expr : expr AND expr => Expr(type=kExprOperator, opType=kOpAnd, expr=$1, expr2=$3)
 | expr OR expr => Expr(type=kExprOperator, opType=kOpOr, expr=$1, expr2=$3)
in_expr : operand IN '(' expr_list ')' => Expr(type=kExprOperator, opType=kOpIn, expr=$1, exprList=$4)
 | operand NOT IN '(' expr_list ')' => Expr(type=kExprOperator, opType=kOpNot, expr=Expr(type=kExprOperator, opType=kOpIn, expr=$1, exprList=$5))
 | operand IN '(' select_no_paren ')' => Expr(type=kExprOperator, opType=kOpIn, expr=$1, select=$4)
 | operand NOT IN '(' select_no_paren ')' => Expr(type=kExprOperator, opType=kOpNot, expr=Expr(type=kExprOperator, opType=kOpIn, expr=$1, select=$5))
case_expr : CASE expr case_list END => Expr(type=kExprOperator, opType=kOpCase, expr=$2, exprList=$3.exprList)
 | CASE expr case_list ELSE expr END => Expr(type=kExprOperator, opType=kOpCase, expr=$2, exprList=$3.exprList, expr2=$5)
 | CASE case_list END => Expr(type=kExprOperator, opType=kOpCase, exprList=$2.exprList)
 | CASE case_list ELSE expr END => Expr(type=kExprOperator, opType=kOpCase, exprList=$2.exprList, expr2=$4)
case_list : WHEN expr THEN expr => Expr(type=kExprOperator, opType=kOpNone, exprList=[Expr(type=kExprOperator, opType=kOpCaseListElement, expr=$2, expr2=$4)])
 | case_list WHEN expr THEN expr => upd($1, exprList=app($1.exprList, Expr(type=kExprOperator, opType=kOpCaseListElement, expr=$3, expr2=$5)))
exists_expr : EXISTS '(' select_no_paren ')' => Expr(type=kExprOperator, opType=kOpExists, select=$3)
 | NOT EXISTS '(' select_no_paren ')' => Expr(type=kExprOperator, opType=kOpNot, expr=Expr(type=kExprOperator, opType=kOpExists, select=$4))
comp_expr : operand '=' operand => Expr(type=kExprOperator, opType=kOpEquals, expr=$1, expr2=$3)
 | operand EQUALS operand => Expr(type=kExprOperator, opType=kOpEquals, expr=$1, expr2=$3)
 | operand NOTEQUALS operand => Expr(type=kExprOperator, opType=kOpNotEquals, expr=$1, expr2=$3)
 | operand '<' operand => Expr(type=kExprOperator, opType=kOpLess, expr=$1, expr2=$3)
 | operand '>' operand => Expr(type=kExprOperator, opType=kOpGreater, expr=$1, expr2=$3)
 | operand LESSEQ operand => Expr(type=kExprOperator, opType=kOpLessEq, expr=$1, expr2=$3)
 | operand GREATEREQ operand => Expr(type=kExprOperator, opType=kOpGreaterEq, expr=$1, expr2=$3)
function_expr : IDENTIFIER '(' ')' opt_window => Expr(type=kExprFunctionRef, name=$1, exprList=[], distinct=False, windowDescription=$4)
 | IDENTIFIER '(' opt_distinct expr_list ')' opt_window => Expr(type=kExprFunctionRef, name=$1, exprList=$4, distinct=$3, windowDescription=$6)
 | IDENTIFIER '.' IDENTIFIER '(' ')' opt_window => Expr(type=kExprFunctionRef, schema=$1, name=$3, exprList=[], distinct=False, windowDescription=$6)
 | IDENTIFIER '.' IDENTIFIER '(' opt_distinct expr_list ')' opt_window => Expr(type=kExprFunctionRef, schema=$1, name=$3, exprList=$6, distinct=$5, windowDescription=$8)
opt_window : OVER '(' opt_partition opt_order opt_frame_clause ')' => WindowDescription(partitionList=$3, orderList=$4, frameDescription=$5) | <empty> => None
opt_partition : PARTITION BY expr_list => $3 | <empty> => None
opt_frame_clause : frame_type frame_bound => FrameDescription(type=$1, start=$2, end=FrameBound(offset=0, type=kCurrentRow, unbounded=False))
 | frame_type BETWEEN frame_bound AND frame_bound => FrameDescription(type=$1, start=$3, end=$5)
 | <empty> => FrameDescription(type=kRange, start=FrameBound(offset=0, type=kPreceding, unbounded=True), end=FrameBound(offset=0, type=kCurrentRow, unbounded=False))
frame_type : RANGE => kRange | ROWS => kRows | GROUPS => kGroups
frame_bound : UNBOUNDED PRECEDING => FrameBound(offset=0, type=kPreceding, unbounded=True)
 | INTVAL PRECEDING => FrameBound(offset=$1, type=kPreceding, unbounded=False)
 | UNBOUNDED FOLLOWING => FrameBound(offset=0, type=kFollowing, unbounded=True)
 | INTVAL FOLLOWING => FrameBound(offset=$1, type=kFollowing, unbounded=False)
 | CURRENT_ROW => FrameBound(offset=0, type=kCurrentRow, unbounded=False)
extract_expr : EXTRACT '(' datetime_field FROM expr ')' => Expr(type=kExprExtract, datetimeField=$3, expr=$5)
cast_expr : CAST '(' expr AS column_type ')' => Expr(type=kExprCast, expr=$3, columnType=$5)
datetime_field : SECOND => kDatetimeSecond | MINUTE => kDatetimeMinute | HOUR => kDatetimeHour | DAY => kDatetimeDay | MONTH => kDatetimeMonth | YEAR => kDatetimeYear
datetime_field_plural : SECONDS => kDatetimeSecond | MINUTES => kDatetimeMinute | HOURS => kDatetimeHour | DAYS => kDatetimeDay | MONTHS => kDatetimeMonth | YEARS => kDatetimeYear
duration_field : datetime_field | datetime_field_plural
array_expr : ARRAY '[' expr_list ']' => Expr(type=kExprArray, exprList=$3)
array_index : operand '[' int_literal ']' => Expr(type=kExprArrayIndex, expr=$1, ival=$3.ival)
between_expr : operand BETWEEN operand AND operand => Expr(type=kExprOperator, opType=kOpBetween, expr=$1, exprList=[$3, $5])
column_name : IDENTIFIER => Expr(type=kExprColumnRef, name=$1)
 | IDENTIFIER '.' IDENTIFIER => Expr(type=kExprColumnRef, table=$1, name=$3)
 | '*' => Expr(type=kExprStar)
 | IDENTIFIER '.' '*' => Expr(type=kExprStar, table=$1)
literal : string_literal | bool_literal | num_literal | null_literal | date_literal | interval_literal | param_expr
string_literal : STRING => Expr(type=kExprLiteralString, name=$1)
bool_literal : TRUE => Expr(type=kExprLiteralInt, ival=1, isBoolLiteral=True) | FALSE => Expr(type=kExprLiteralInt, ival=0, isBoolLiteral=True)
num_literal : FLOATVAL => Expr(type=kExprLiteralFloat, fval=$1) | int_literal
int_literal : INTVAL => Expr(type=kExprLiteralInt, ival=$1)
null_literal : NULL => Expr(type=kExprLiteralNull)
date_literal : DATE STRING => Expr(type=kExprLiteralDate, name=$2) if isdate($2) else reject("Found incorrect date format. Expected format: YYYY-MM-DD")
interval_literal : INTVAL duration_field => Expr(type=kExprLiteralInterval, ival=$1, datetimeField=$2)
 | INTERVAL STRING datetime_field => Expr(type=kExprLiteralInterval, ival=duration($2), datetimeField=$3) if isduration($2) else reject("Found incorrect interval format. Expected format: INTEGER")
 | INTERVAL STRING => reject("Found incorrect interval format. Expected format: INTEGER INTERVAL_QUALIIFIER") if not isinterval($2) else reject("Interval qualifier is unknown.") if unit($2) == kDatetimeNone else Expr(type=kExprLiteralInterval, ival=duration($2), datetimeField=unit($2))
param_expr : '?' => PARAMETER

table_ref : table_ref_atomic | table_ref_commalist ',' table_ref_atomic => TableRef(type=kTableCrossProduct, list=app($1, $3))
table_ref_atomic : nonjoin_table_ref_atomic | join_clause
nonjoin_table_ref_atomic : table_ref_name | '(' select_statement ')' opt_table_alias => TableRef(type=kTableSelect, select=$2, alias=$4)
table_ref_commalist : table_ref_atomic => [$1] | table_ref_commalist ',' table_ref_atomic => app($1, $3)
table_ref_name : table_name opt_table_alias => TableRef(type=kTableName, schema=$1.schema, name=$1.name, alias=$2)
table_ref_name_no_alias : table_name => TableRef(type=kTableName, schema=$1.schema, name=$1.name)
table_name : IDENTIFIER => struct(schema=None, name=$1) | IDENTIFIER '.' IDENTIFIER => struct(schema=$1, name=$3)
opt_index_name : IDENTIFIER | <empty> => None
table_alias : alias | AS IDENTIFIER '(' ident_commalist ')' => Alias(name=$2, columns=$4)
opt_table_alias : table_alias | <empty> => None
alias : AS IDENTIFIER => Alias(name=$2) | IDENTIFIER => Alias(name=$1)
opt_alias : alias | <empty> => None

opt_locking_clause : opt_locking_clause_list | <empty> => None
opt_locking_clause_list : locking_clause => [$1] | opt_locking_clause_list locking_clause => app($1, $2)
locking_clause : FOR row_lock_mode opt_row_lock_policy => LockingClause(rowLockMode=$2, rowLockWaitPolicy=$3)
 | FOR row_lock_mode OF ident_commalist opt_row_lock_policy => LockingClause(rowLockMode=$2, tables=$4, rowLockWaitPolicy=$5)
row_lock_mode : UPDATE => RowLockMode.ForUpdate | NO KEY UPDATE => RowLockMode.ForNoKeyUpdate | SHARE => RowLockMode.ForShare | KEY SHARE => RowLockMode.ForKeyShare
opt_row_lock_policy : SKIP LOCKED => RowLockWaitPolicy.SkipLocked | NOWAIT => RowLockWaitPolicy.NoWait | <empty> => RowLockWaitPolicy.None_

opt_with_clause : with_clause | <empty> => None
with_clause : WITH with_description_list => $2
with_description_list : with_description => [$1] | with_description_list ',' with_description => app($1, $3)
with_description : IDENTIFIER AS select_with_paren => WithDescription(alias=$1, select=$3)

join_clause : table_ref_atomic NATURAL JOIN nonjoin_table_ref_atomic => TableRef(type=kTableJoin, join=JoinDefinition(type=kJoinNatural, left=$1, right=$4))
 | table_ref_atomic opt_join_type JOIN table_ref_atomic ON join_condition => TableRef(type=kTableJoin, join=JoinDefinition(type=$2, left=$1, right=$4, condition=$6))
 | table_ref_atomic opt_join_type JOIN table_ref_atomic USING '(' ident_commalist ')' => TableRef(type=kTableJoin, join=JoinDefinition(type=$2, left=$1, right=$4, namedColumns=$7))
opt_join_type : INNER => kJoinInner | LEFT OUTER => kJoinLeft | LEFT => kJoinLeft | RIGHT OUTER => kJoinRight | RIGHT => kJoinRight
 | FULL OUTER => kJoinFull | OUTER => kJoinFull | FULL => kJoinFull | CROSS => kJoinCross | <empty> => kJoinInner
join_condition : expr
opt_semicolon : ';' => void | <empty> => void
ident_commalist : IDENTIFIER => [$1] | ident_commalist ',' IDENTIFIER => app($1, $3)
