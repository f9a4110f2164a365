// Parses texts with the code under verification and writes down everything that can be observed.
//   drv MODE IN OUT     IN: records "<length>\n<bytes>"; OUT: one JSON line per record
// MODE T: all texts in several threads at once
// MODE: d dump, m memory balance, p printing, t tokens, r repeated parse and move, h histories of results, c column types, v keep stdout
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <string>
#include <vector>
#include <unordered_map>
#include <iostream>
#include <fstream>
#include <sstream>
#include <thread>
#include "SQLParser.h"
#include "sql/AlterStatement.h"
#include "sql/ImportExportOptions.h"
#include "util/sqlhelper.h"
#include "parser/bison_parser.h"
#include "parser/flex_lexer.h"
using namespace hsql;
extern "C" size_t __sanitizer_get_current_allocated_bytes() __attribute__((weak));

struct Out {
  std::string s;
  bool first = true;
  void key(const char* k) { if (!first) s += ','; first = false; s += '"'; s += k; s += "\":"; }
  void num(const char* k, long long v) { if (v) { key(k); s += std::to_string(v); } }
  void str(const char* k, const char* v) { if (v) { key(k); text(v); } }
  void text(const char* v) {
    s += '"';
    for (; *v; ++v) { char b[8]; unsigned char c = *v; if (c < 32 || c > 126 || c == '"' || c == '\\') { snprintf(b, 8, "\\u%04x", c); s += b; } else s += c; }
    s += '"';
  }
  void begin(const char* c) { s += "{\"_\":\""; s += c; s += '"'; first = false; }
  void end() { s += '}'; first = false; }
};
static thread_local const std::vector<Expr*>* g_params;
static void dump(Out&, const Expr*); static void dump(Out&, const SelectStatement*); static void dump(Out&, const TableRef*);
static void dump(Out& o, const char* v) { o.text(v); }
template <class T> static void ptr(Out& o, const char* k, const T* p) { if (p) { o.key(k); dump(o, p); } }
template <class T> static void vec(Out& o, const char* k, const std::vector<T*>* v) {
  if (!v) return;
  o.key(k); o.s += '[';
  for (size_t i = 0; i < v->size(); ++i) { if (i) o.s += ','; if ((*v)[i]) dump(o, (*v)[i]); else o.s += "null"; }
  o.s += ']'; o.first = false;
}
static void type(Out& o, const char* k, const ColumnType& t) {
  o.key(k); o.begin("ColumnType"); o.num("data_type", (int)t.data_type); o.num("length", t.length); o.num("precision", t.precision); o.num("scale", t.scale); o.end();
}
static void dump(Out& o, const OrderDescription* d) { o.begin("OrderDescription"); o.num("type", d->type); ptr(o, "expr", d->expr); o.num("null_ordering", d->null_ordering); o.end(); }
static void dump(Out& o, const LimitDescription* d) { o.begin("LimitDescription"); ptr(o, "limit", d->limit); ptr(o, "offset", d->offset); o.end(); }
static void dump(Out& o, const FrameBound* d) { o.begin("FrameBound"); o.num("offset", d->offset); o.num("type", d->type); o.num("unbounded", *(const unsigned char*)&d->unbounded); o.end(); }
static void dump(Out& o, const FrameDescription* d) { o.begin("FrameDescription"); o.num("type", d->type); ptr(o, "start", d->start); ptr(o, "end", d->end); o.end(); }
static void dump(Out& o, const WindowDescription* d) { o.begin("WindowDescription"); vec(o, "partitionList", d->partitionList); vec(o, "orderList", d->orderList); ptr(o, "frameDescription", d->frameDescription); o.end(); }
static void dump(Out& o, const Expr* e) {
  o.begin("Expr");
  o.num("type", e->type); ptr(o, "expr", e->expr); ptr(o, "expr2", e->expr2); vec(o, "exprList", e->exprList); ptr(o, "select", e->select);
  o.str("name", e->name); o.str("table", e->table); o.str("schema", e->schema); o.str("alias", e->alias);
  if (e->fval != 0) { char b[64]; snprintf(b, 64, "\"%a\"", e->fval); o.key("fval"); o.s += b; }
  o.num("ival", e->ival); o.num("ival2", e->ival2); o.num("datetimeField", e->datetimeField); type(o, "columnType", e->columnType);
  o.num("isBoolLiteral", *(const unsigned char*)&e->isBoolLiteral); o.num("opType", e->opType); o.num("distinct", *(const unsigned char*)&e->distinct); ptr(o, "windowDescription", e->windowDescription);
  if (g_params) for (size_t i = 0; i < g_params->size(); ++i) if ((*g_params)[i] == e) { o.key("param"); o.s += std::to_string(i); break; }
  int acc = (e->isType(e->type) ? 1 : 0) | (e->isLiteral() ? 2 : 0) | (e->hasAlias() ? 4 : 0) | (e->hasTable() ? 8 : 0);
  o.key("acc"); o.s += std::to_string(acc);
  if (e->getName()) o.str("getName", e->getName());
  o.end();
}
static void dump(Out& o, const Alias* a) { o.begin("Alias"); o.str("name", a->name); vec(o, "columns", a->columns); o.end(); }
static void dump(Out& o, const JoinDefinition* j) { o.begin("JoinDefinition"); ptr(o, "left", j->left); ptr(o, "right", j->right); ptr(o, "condition", j->condition); vec(o, "namedColumns", j->namedColumns); o.num("type", j->type); o.end(); }
static void dump(Out& o, const TableRef* t) {
  o.begin("TableRef"); o.num("type", t->type); o.str("schema", t->schema); o.str("name", t->name); ptr(o, "alias", t->alias); ptr(o, "select", t->select); vec(o, "list", t->list); ptr(o, "join", t->join);
  if (t->hasSchema()) o.num("hasSchema", 1);
  if (t->getName()) o.str("getName", t->getName());
  o.end();
}
static void dump(Out& o, const GroupByDescription* g) { o.begin("GroupByDescription"); vec(o, "columns", g->columns); ptr(o, "having", g->having); o.end(); }
static void dump(Out& o, const WithDescription* w) { o.begin("WithDescription"); o.str("alias", w->alias); ptr(o, "select", w->select); o.end(); }
static void dump(Out& o, const SetOperation* s) { o.begin("SetOperation"); o.num("setType", s->setType); o.num("isAll", *(const unsigned char*)&s->isAll); ptr(o, "nestedSelectStatement", s->nestedSelectStatement); vec(o, "resultOrder", s->resultOrder); ptr(o, "resultLimit", s->resultLimit); o.end(); }
static void dump(Out& o, const LockingClause* l) { o.begin("LockingClause"); o.num("rowLockMode", l->rowLockMode); o.num("rowLockWaitPolicy", l->rowLockWaitPolicy); vec(o, "tables", l->tables); o.end(); }
static void base(Out& o, const SQLStatement* s, bool top) {
  o.num("stmtType", s->type());
  if (!s->is(s->type()) || !s->isType(s->type()) || s->is((StatementType)(s->type() + 1))) o.num("badIs", 1);
  vec(o, "hints", s->hints);
  if (top) o.num("stringLength", s->stringLength);
}
static void sel(Out& o, const SelectStatement* s, bool top) {
  o.begin("SelectStatement"); base(o, s, top); ptr(o, "fromTable", s->fromTable); o.num("selectDistinct", *(const unsigned char*)&s->selectDistinct); vec(o, "selectList", s->selectList); ptr(o, "whereClause", s->whereClause);
  ptr(o, "groupBy", s->groupBy); vec(o, "setOperations", s->setOperations); vec(o, "order", s->order); vec(o, "withDescriptions", s->withDescriptions); ptr(o, "limit", s->limit); vec(o, "lockings", s->lockings); o.end();
}
static void dump(Out& o, const SelectStatement* s) { sel(o, s, false); }
static void dump(Out& o, const CsvOptions* c) { o.begin("CsvOptions"); o.str("delimiter", c->delimiter); o.str("null", c->null); o.str("quote", c->quote); o.end(); }
static void dump(Out& o, const ReferencesSpecification* r) { o.begin("ReferencesSpecification"); o.str("schema", r->schema); o.str("table", r->table); vec(o, "columns", r->columns); o.end(); }
static void dump(Out& o, const TableElement* e) {
  if (auto* c = dynamic_cast<const ColumnDefinition*>(e)) {
    o.begin("ColumnDefinition"); o.str("name", c->name); type(o, "type", c->type); o.num("nullable", *(const unsigned char*)&c->nullable);
    if (c->column_constraints) { o.key("column_constraints"); o.s += '['; bool f = true; for (int i = 0; i < 16; ++i) if (c->column_constraints->count((ConstraintType)i)) { if (!f) o.s += ','; f = false; o.s += std::to_string(i); } o.s += ']'; o.first = false; }
    vec(o, "references", c->references); o.end();
  } else if (auto* c = dynamic_cast<const ForeignKeyConstraint*>(e)) {
    o.begin("ForeignKeyConstraint"); o.num("type", (int)c->type); vec(o, "columnNames", c->columnNames); ptr(o, "references", c->references); o.end();
  } else if (auto* c = dynamic_cast<const TableConstraint*>(e)) {
    o.begin("TableConstraint"); o.num("type", (int)c->type); vec(o, "columnNames", c->columnNames); o.end();
  } else { o.begin("TableElement"); o.end(); }
}
static void dump(Out& o, const ColumnDefinition* e) { dump(o, (const TableElement*)e); }
static void dump(Out& o, const TableConstraint* e) { dump(o, (const TableElement*)e); }
static void dump(Out& o, const UpdateClause* u) { o.begin("UpdateClause"); o.str("column", u->column); ptr(o, "value", u->value); o.end(); }
static void dump(Out& o, const AlterAction* a) {
  if (a->type == ActionType::DropColumn) { auto* d = static_cast<const DropColumnAction*>(a); o.begin("DropColumnAction"); o.num("action", d->type); o.str("columnName", d->columnName); o.num("ifExists", *(const unsigned char*)&d->ifExists); o.end(); }
  else { o.begin("AlterAction"); o.end(); }
}
static void dump(Out& o, const SQLStatement* s) {
  if (auto* x = dynamic_cast<const SelectStatement*>(s)) return sel(o, x, true);
  if (auto* x = dynamic_cast<const ImportStatement*>(s)) { o.begin("ImportStatement"); base(o, s, true); o.num("type", x->type); o.str("filePath", x->filePath); o.str("schema", x->schema); o.str("tableName", x->tableName); ptr(o, "whereClause", x->whereClause); o.str("encoding", x->encoding); ptr(o, "csv_options", x->csv_options); o.end(); return; }
  if (auto* x = dynamic_cast<const ExportStatement*>(s)) { o.begin("ExportStatement"); base(o, s, true); o.num("type", x->type); o.str("filePath", x->filePath); o.str("schema", x->schema); o.str("tableName", x->tableName); ptr(o, "select", x->select); o.str("encoding", x->encoding); ptr(o, "csv_options", x->csv_options); o.end(); return; }
  if (auto* x = dynamic_cast<const InsertStatement*>(s)) { o.begin("InsertStatement"); base(o, s, true); o.num("type", x->type); o.str("schema", x->schema); o.str("tableName", x->tableName); vec(o, "columns", x->columns); vec(o, "values", x->values); ptr(o, "select", x->select); o.end(); return; }
  if (auto* x = dynamic_cast<const UpdateStatement*>(s)) { o.begin("UpdateStatement"); base(o, s, true); ptr(o, "table", x->table); vec(o, "updates", x->updates); ptr(o, "where", x->where); o.end(); return; }
  if (auto* x = dynamic_cast<const DeleteStatement*>(s)) { o.begin("DeleteStatement"); base(o, s, true); o.str("schema", x->schema); o.str("tableName", x->tableName); ptr(o, "expr", x->expr); o.end(); return; }
  if (auto* x = dynamic_cast<const CreateStatement*>(s)) {
    o.begin("CreateStatement"); base(o, s, true); o.num("type", x->type); o.num("ifNotExists", *(const unsigned char*)&x->ifNotExists); o.str("filePath", x->filePath); o.str("schema", x->schema); o.str("tableName", x->tableName); o.str("indexName", x->indexName);
    vec(o, "indexColumns", x->indexColumns); vec(o, "columns", x->columns); vec(o, "tableConstraints", x->tableConstraints); vec(o, "viewColumns", x->viewColumns); ptr(o, "select", x->select); o.end(); return; }
  if (auto* x = dynamic_cast<const DropStatement*>(s)) { o.begin("DropStatement"); base(o, s, true); o.num("type", x->type); o.num("ifExists", *(const unsigned char*)&x->ifExists); o.str("schema", x->schema); o.str("name", x->name); o.str("indexName", x->indexName); o.end(); return; }
  if (auto* x = dynamic_cast<const AlterStatement*>(s)) { o.begin("AlterStatement"); base(o, s, true); o.str("schema", x->schema); o.num("ifTableExists", *(const unsigned char*)&x->ifTableExists); o.str("name", x->name); ptr(o, "action", x->action); o.end(); return; }
  if (auto* x = dynamic_cast<const PrepareStatement*>(s)) { o.begin("PrepareStatement"); base(o, s, true); o.str("name", x->name); o.str("query", x->query); o.end(); return; }
  if (auto* x = dynamic_cast<const ExecuteStatement*>(s)) { o.begin("ExecuteStatement"); base(o, s, true); o.str("name", x->name); vec(o, "parameters", x->parameters); o.end(); return; }
  if (auto* x = dynamic_cast<const ShowStatement*>(s)) { o.begin("ShowStatement"); base(o, s, true); o.num("type", x->type); o.str("schema", x->schema); o.str("name", x->name); o.end(); return; }
  if (auto* x = dynamic_cast<const TransactionStatement*>(s)) { o.begin("TransactionStatement"); base(o, s, true); o.num("command", x->command); o.end(); return; }
  o.begin("SQLStatement"); base(o, s, true); o.end();
}
static void outcome(Out& o, SQLParserResult& r, bool ret) {
  o.s += '{'; o.first = true;
  o.num("ret", ret); o.num("valid", r.isValid()); o.str("msg", r.errorMsg());
  o.key("line"); o.s += std::to_string(r.errorLine()); o.key("col"); o.s += std::to_string(r.errorColumn());
  g_params = &r.parameters();
  o.key("nparams"); o.s += std::to_string(g_params->size());
  vec(o, "stmts", &r.getStatements());
  o.num("size", r.size());
  g_params = nullptr;
  o.s += '}';
}
// ---- results under a pseudo-random history of operations, against a shadow of what they should hold
struct Shadow { bool valid = false; bool has = false; std::string msg; int line = -1, col = -1; std::vector<SQLStatement*> st; std::vector<Expr*> ps; };
static std::string same(SQLParserResult& r, const Shadow& s) {
  if (r.isValid() != s.valid) return "isValid";
  if ((r.errorMsg() != nullptr) != s.has || (s.has && s.msg != r.errorMsg())) return "errorMsg";
  if (r.errorLine() != s.line || r.errorColumn() != s.col) return "error position";
  if (r.size() != s.st.size() || r.getStatements() != s.st) return "statements";
  for (size_t i = 0; i < s.st.size(); ++i) if (r.getStatement(i) != s.st[i] || r.getMutableStatement(i) != s.st[i]) return "getStatement";
  if (r.parameters() != s.ps) return "parameters";
  return "";
}
static void observe(SQLParserResult& r, Shadow& s) {
  s.valid = r.isValid(); s.has = r.errorMsg() != nullptr; s.msg = s.has ? r.errorMsg() : ""; s.line = r.errorLine(); s.col = r.errorColumn(); s.st = r.getStatements(); s.ps = r.parameters();
}
static std::string history(const std::string& text, unsigned long seed) {
  std::string log;
  unsigned long x = seed * 2654435761u + 12345;
  auto rnd = [&](int n) { x = x * 6364136223846793005ul + 1442695040888963407ul; return (int)((x >> 33) % n); };
  std::vector<SQLStatement*> released;
  std::vector<Expr*> exprs;
  std::string bad;
  {
    SQLParserResult* r[3]; Shadow s[3];
    for (auto& p : r) p = new SQLParserResult();
    for (int n = 0; n < 24 && bad.empty(); ++n) {
      int i = rnd(3), j = rnd(3), op = rnd(12);
      log += " " + std::to_string(op) + ":" + std::to_string(i) + std::to_string(j);
      switch (op) {
        case 0: case 1: r[i]->reset(); s[i] = Shadow(); bad = same(*r[i], s[i]); if (!bad.empty()) { bad += " after reset"; break; } SQLParser::parse(text, r[i]); observe(*r[i], s[i]); break;
        case 2: r[i]->reset(); s[i] = Shadow(); break;
        case 3: case 4: *r[i] = std::move(*r[j]); if (i != j) { s[i] = s[j]; s[j] = Shadow(); } break;
        case 5: { auto* q = new SQLParserResult(std::move(*r[i])); Shadow t = s[i]; s[i] = Shadow(); bad = same(*r[i], s[i]); if (!bad.empty()) bad += " of the moved-from result"; delete r[i]; r[i] = q; s[i] = t; break; }
        case 6: { auto v = r[i]->releaseStatements(); if (v != s[i].st) bad = "released statements"; released.insert(released.end(), v.begin(), v.end()); s[i].st.clear(); break; }
        case 7: { std::string m = rnd(4) ? "m" + std::to_string(n) : std::string(rnd(3) * 150, 120); r[i]->setErrorDetails(strdup(m.c_str()), n, n + 1); s[i].has = true; s[i].msg = m; s[i].line = n; s[i].col = n + 1; break; }
        case 8: { bool v = rnd(2); r[i]->setIsValid(v); s[i].valid = v; break; }
        case 9: { auto* t = new TransactionStatement(kCommitTransaction); r[i]->addStatement(t); s[i].st.push_back(t); break; }
        case 10: { if (s[i].ps.size() && s[i].ps.back()->ival >= 1000 + n) break; auto* e = Expr::makeParameter(1000 + n); e->ival = 1000 + n; exprs.push_back(e); r[i]->addParameter(e); s[i].ps.push_back(e); break; }
        case 11: { delete r[i]; if (rnd(2)) { r[i] = new SQLParserResult(); s[i] = Shadow(); } else { auto* t = new TransactionStatement(kBeginTransaction); r[i] = new SQLParserResult(t); s[i] = Shadow(); s[i].st.push_back(t); } break; }
      }
      for (int k = 0; k < 3 && bad.empty(); ++k) { bad = same(*r[k], s[k]); if (!bad.empty()) bad += " of result " + std::to_string(k); }
    }
    for (auto* p : r) delete p;
  }
  for (auto* t : released) delete t;
  for (auto* e : exprs) delete e;
  return bad.empty() ? bad : bad + " after operations" + log;
}
// ---- column types as values
static std::string values() {
  static const char* names[] = {"UNKNOWN", "BIGINT", "BOOLEAN", "CHAR", "DATE", "DATETIME", "DECIMAL", "DOUBLE", "FLOAT", "INT", "LONG", "REAL", "SMALLINT", "TEXT", "TIME", "VARCHAR"};
  static const DataType types[] = {DataType::UNKNOWN, DataType::BIGINT, DataType::BOOLEAN, DataType::CHAR, DataType::DATE, DataType::DATETIME, DataType::DECIMAL, DataType::DOUBLE, DataType::FLOAT, DataType::INT, DataType::LONG, DataType::REAL, DataType::SMALLINT, DataType::TEXT, DataType::TIME, DataType::VARCHAR};
  std::vector<ColumnType> v;
  struct W { int t; int64_t l, p, s; };
  std::vector<W> ws;
  const int64_t xs[] = {0, 1, 7, 255, 4294967296, -1};
  for (int t = 0; t < 16; ++t) for (int64_t a : xs) for (int64_t b : {(int64_t)0, (int64_t)1, (int64_t)4294967297}) for (int64_t c : {(int64_t)0, (int64_t)1, (int64_t)9, (int64_t)4294967305}) { v.push_back(ColumnType(types[t], a, b, c)); ws.push_back({t, a, b, c}); }
  for (size_t i = 0; i < v.size(); ++i) {
    auto& a = v[i];
    std::ostringstream o; o << a;
    std::string w = names[ws[i].t];
    if (types[ws[i].t] == DataType::CHAR || types[ws[i].t] == DataType::VARCHAR) w += "(" + std::to_string(ws[i].l) + ")";
    if (o.str() != w) return "ColumnType " + w + " is written as " + o.str();
    for (size_t j = 0; j < v.size(); ++j) {
      auto &x = ws[i], &y = ws[j];
      bool e = x.t == y.t && x.l == y.l && x.p == y.p && x.s == y.s;
      if ((a == v[j]) != e || (a != v[j]) == e) return "comparison of ColumnType " + w + " length " + std::to_string(x.l) + "/" + std::to_string(y.l) + " precision " + std::to_string(x.p) + "/" + std::to_string(y.p) + " scale " + std::to_string(x.s) + "/" + std::to_string(y.s);
    }
  }
  for (long long n : {0ll, 5ll, 1000ll}) { ColumnType c(DataType::VARCHAR, n, n + 1, n + 2); if (c.data_type != DataType::VARCHAR || c.length != n || c.precision != n + 1 || c.scale != n + 2) return "construction of a ColumnType"; }
  return "";
}
static size_t allocated() { return __sanitizer_get_current_allocated_bytes ? __sanitizer_get_current_allocated_bytes() : 0; }
static std::string once(const std::string& text) {
  Out o;
  { SQLParserResult r; bool ret = SQLParser::parse(text, &r); outcome(o, r, ret); }
  std::vector<int16_t> t;
  SQLParser::tokenize(text, &t);
  for (int16_t x : t) o.s += " " + std::to_string(x);
  return o.s;
}
static int threads(const char* fi, const char* fo) {
  FILE* in = fopen(fi, "rb");
  FILE* out = fopen(fo, "wb");
  std::vector<std::string> texts, want;
  size_t n;
  while (fscanf(in, "%zu", &n) == 1) { fgetc(in); std::string t(n, 0); if (n && fread(&t[0], 1, n, in) != n) break; fgetc(in); texts.push_back(t); }
  const size_t K = 6;
  std::vector<std::vector<std::string>> got(K, std::vector<std::string>(texts.size()));
  std::vector<std::thread> th;
  for (size_t k = 0; k < K; ++k) th.emplace_back([&, k] { for (size_t i = 0; i < texts.size(); ++i) { size_t j = (i + k * (texts.size() / K + 1)) % texts.size(); got[k][j] = once(texts[j]); } });
  for (auto& t : th) t.join();
  for (auto& t : texts) want.push_back(once(t));
  for (size_t i = 0; i < texts.size(); ++i) {
    bool ok = true;
    for (size_t k = 0; k < K; ++k) ok &= got[k][i] == want[i];
    fputs(ok ? "@{}\n" : "@{\"differs\":1}\n", out);
  }
  fputs("#", out);
  fclose(out);
  return 0;
}
int main(int argc, char** argv) {
  std::string mode = argv[1];
  if (mode == "T") return threads(argv[2], argv[3]);
  FILE* in = fopen(argv[2], "rb");
  FILE* out = fopen(argv[3], "wb");
  int devnull = open("/dev/null", O_WRONLY);
  if (mode.find('v') == std::string::npos) { dup2(devnull, 1); }
  size_t n;
  unsigned long count = 0;
  while (fscanf(in, "%zu", &n) == 1) {
    fgetc(in);
    std::string text(n, 0);
    if (n && fread(&text[0], 1, n, in) != n) break;
    fgetc(in);
    ++count;
    fputs("@", out); fflush(out);
    Out o;
    o.s += '{';
    if (mode.find('m') != std::string::npos) {
      size_t before = 0, after = 0;
      for (int i = 0; i < 3; ++i) {
        before = __sanitizer_get_current_allocated_bytes ? __sanitizer_get_current_allocated_bytes() : 0;
        { SQLParserResult r; SQLParser::parse(text, &r); if (i == 1) r.reset(); }
        { SQLParserResult r; SQLParser::parse(text, &r); for (auto* s : r.releaseStatements()) delete s; }
        { std::vector<int16_t> t; SQLParser::tokenize(text, &t); }
        after = __sanitizer_get_current_allocated_bytes ? __sanitizer_get_current_allocated_bytes() : 0;
      }
      o.num("leak", (long long)after - (long long)before);
    }
    if (mode.find('d') != std::string::npos) {
      SQLParserResult r;
      bool ret = SQLParser::parse(text, &r);
      o.key("out"); outcome(o, r, ret); o.first = false;
      if (mode.find('s') != std::string::npos) {
        Out a, b, c;
        outcome(a, r, ret);
        { SQLParserResult q; bool ret2 = SQLParser::parseSQLString(text, &q); outcome(b, q, ret2); }
        if (a.s != b.s) o.str("variant", "parseSQLString(string) differs from parse");
        if (text.find('\0') == std::string::npos) {
          SQLParserResult q;
          bool ret2 = SQLParser::parseSQLString(text.c_str(), &q);
          outcome(c, q, ret2);
          if (a.s != c.s) o.str("variant", "parseSQLString(char*) differs from parse");
        }
      }
      if (mode.find('p') != std::string::npos) {
        Out a, b;
        outcome(a, r, ret);
        for (auto* s : r.getStatements()) printStatementInfo(s);
        outcome(b, r, ret);
        if (a.s != b.s) o.num("changed", 1);
      }
      if (mode.find('r') != std::string::npos) {
        Out a, b;
        outcome(a, r, ret);
        SQLParserResult q;
        bool ret2 = SQLParser::parse(text, &q);
        outcome(b, q, ret2);
        if (a.s != b.s) o.num("differs", 1);
        SQLParserResult w(std::move(q));
        Out c;
        outcome(c, w, ret2);
        if (a.s != c.s) o.num("moved", 1);
      }
    }
    if (mode.find('h') != std::string::npos) {
      std::string bad;
      size_t before = 0, after = 0;
      for (int i = 0; i < 2; ++i) { before = allocated(); bad = history(text, text.size() * 7 + count); if (!bad.empty()) break; after = allocated(); }
      if (!bad.empty()) o.str("history", bad.c_str());
      else if (after != before && !(after < before)) o.str("history", "memory is kept after all results are destroyed");
    }
    if (mode.find('c') != std::string::npos && count == 1) {
      std::string bad = values();
      if (!bad.empty()) o.str("value", bad.c_str());
    }
    if (mode.find('t') != std::string::npos) {
      std::vector<int16_t> t, want(3, -7);
      bool ok = SQLParser::tokenize(text, &t);
      yyscan_t scanner;
      hsql_lex_init(&scanner);
      YY_BUFFER_STATE state = hsql__scan_bytes(text.data(), text.size(), scanner);
      HSQL_STYPE val;
      HSQL_LTYPE loc{};
      std::string lex, tok;
      while (int k = hsql_lex(&val, &loc, scanner)) {
        want.push_back(k);
        if (k == SQL_IDENTIFIER || k == SQL_STRING) free(val.sval);
      }
      hsql__delete_buffer(state, scanner);
      hsql_lex_destroy(scanner);
      std::vector<int16_t> again(3, -7);
      bool ok2 = SQLParser::tokenize(text, &again);
      size_t i = 0;
      while (i < t.size() && i + 3 < want.size() && t[i] == want[i + 3]) ++i;
      if (!ok || !ok2) o.str("tokens", "tokenize returns false");
      else if (i < t.size() || i + 3 < want.size()) o.str("tokens", ("token " + std::to_string(i) + " of " + std::to_string(want.size() - 3) + " is " + (i < t.size() ? std::to_string(t[i]) : "missing") + ", the parser reads " + (i + 3 < want.size() ? std::to_string(want[i + 3]) : "none")).c_str());
      else if (again != want) o.str("tokens", "a list that is not empty is not extended");
    }
    o.s += "}\n";
    fputs(o.s.c_str(), out); fflush(out);
  }
  fputs("#", out);
  fclose(out);
  return 0;
}
