# How the text is divided into tokens: the longest match wins, among equal ones the first rule.
# name : regular expression over bytes (Python syntax; keywords are matched in any case)
# name/k : the match counts as long as it is, but the token consists of its first k bytes
#
# Keywords: every word stands for the token of its name, whatever the case of its letters.
keywords ADD AFTER ALL ALTER ANALYZE AND ARRAY AS ASC BEFORE BEGIN BETWEEN BIGINT BOOLEAN BY CALL CASCADE CASE CAST CHAR COLUMN COLUMNS
keywords COMMIT CONTROL COPY CREATE CROSS DATE DATETIME DAY DAYS DEALLOCATE DECIMAL DEFAULT DELETE DELTA DESC DESCRIBE DIRECT DISTINCT
keywords DOUBLE DROP ELSE ENCODING END ESCAPE EXCEPT EXECUTE EXISTS EXPLAIN EXTRACT FALSE FILE FLOAT FOLLOWING FOR FOREIGN FORMAT FROM
keywords FULL GLOBAL GROUP GROUPS HASH HAVING HINT HOUR HOURS IF ILIKE IMPORT IN INDEX INNER INSERT INT INTEGER INTERSECT INTERVAL INTO IS
keywords ISNULL JOIN KEY LEFT LIKE LIMIT LOAD LOCAL LOCKED LONG MERGE MINUS MINUTE MINUTES MONTH MONTHS NATURAL NO NOT NOWAIT NULL
keywords NVARCHAR OF OFF OFFSET ON OR ORDER OUTER OVER PARAMETERS PARTITION PLAN PRECEDING PREPARE PRIMARY RANGE REAL REFERENCES RENAME
keywords RESTRICT RIGHT ROLLBACK ROWS SCHEMA SCHEMAS SECOND SECONDS SELECT SET SHARE SHOW SKIP SMALLINT SORTED SPATIAL TABLE TABLES
keywords TEMPORARY TEXT THEN TIME TIMESTAMP TO TOP TRANSACTION TRUE TRUNCATE UNBOUNDED UNION UNIQUE UNLOAD UPDATE USING VALUES VARCHAR
keywords VIEW VIRTUAL WHEN WHERE WITH YEAR YEARS
skip : --[^\n\0]*
skip : [ \t\r\n]+
CURRENT_ROW : (?i)CURRENT[ \t\r\n]+ROW
CHARACTER_VARYING : (?i)CHARACTER[ \t\r\n]+VARYING
EQUALS : ==
NOTEQUALS : !=
NOTEQUALS : <>
LESSEQ : <=
GREATEREQ : >=
CONCAT : \|\|
char : [-+*/(){},.;<>=^%:?[\]|]
FLOATVAL : [0-9]+\.[0-9]*
FLOATVAL : \.[0-9]*
INTVAL : -9223372036854775808
char/1 : -9223372036854775808[.]
INTVAL : [0-9]+
IDENTIFIER.quoted : "[^"\n\0]+"
IDENTIFIER.plain : [A-Za-z][A-Za-z0-9_]*
STRING : '([^'\0]|'')*'
