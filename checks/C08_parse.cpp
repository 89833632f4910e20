// C08: parsing any text ends with a tree or a reported error.
#include "plain.hpp"
using namespace gen;
using js::J;

static bool has_dup(const J &j) { // duplicate names are reported as errors
  if (j.k == J::OBJ) for (size_t i = 0; i < j.names.size(); i++) for (size_t k = 0; k < i; k++) if (j.names[i] == j.names[k]) return true;
  for (auto &c : j.kids) if (has_dup(c)) return true;
  return false;
}
// one text through one protocol; returns whether a tree was built
static bool attempt(const std::string &t, const char *proto, M *out = nullptr) {
  Node r; r["old/x"] = 1; r["old/y"] = "yes";
  bool ok = false;
  try { r.parse(t, proto); ok = true; }
  catch (conduit::Error &) { }
  catch (std::exception &e) { mc::fail("foreign-exception", mc::fmt("%s on '%s': %s", proto, t.c_str(), e.what())); }
  if (!ok) MC_CHECK(r.dtype().is_empty() && r.number_of_children() == 0 && r.schema().number_of_children() == 0, "not-empty", "after an error for %s '%s' the node is not empty", proto, t.c_str());
  M m = value(r); // reads every leaf
  if (out) *out = m;
  { Node c(r); MC_CHECK(value(c) == m, "copy", "the parsed tree cannot be copied"); std::string s = c.to_json(); (void)s; (void)r.total_bytes_compact(); }
  r.reset(); r["a/b"] = 42;
  MC_CHECK(r["a/b"].to_int() == 42 && r.number_of_children() == 1, "unusable", "the node is unusable after parsing '%s'", t.c_str());
  mc::transition();
  return ok;
}
static bool schema_attempt(const std::string &t, const char *proto) {
  conduit::Schema s; bool ok = false;
  try { conduit::Generator g(t, proto); g.walk(s); ok = true; }
  catch (conduit::Error &) { }
  catch (std::exception &e) { mc::fail("foreign-exception", mc::fmt("schema %s on '%s': %s", proto, t.c_str(), e.what())); }
  conduit::Schema c(s); (void)c.to_json(); (void)c.total_bytes_compact();
  s.reset(); s["a"].set(DataType::int8()); MC_CHECK(s.number_of_children() == 1, "unusable", "the schema is unusable");
  mc::transition();
  return ok;
}
static void plain_json(const std::string &t) {
  J j; bool valid = js::parse(t, j);
  M m; bool ok = attempt(t, "json", &m);
  if (valid && !has_dup(j)) {
    MC_CHECK(ok, "valid-rejected", "the valid JSON text '%s' is rejected", t.c_str());
    bool known = true; M want = js::denote(j, known);
    if (known) MC_CHECK(m == want, "valid-misread", "'%s' is read as %s, it denotes %s", t.c_str(), m.str().c_str(), want.str().c_str());
    mc::outcome("valid");
  } else mc::outcome(ok ? "lenient" : "rejected");
  mc::observe(mc::hash_str(t));
}
static const char *TP[] = {"conduit_json", "conduit_base64_json"};
static std::string chars(const std::string &A, int maxlen) {
  int n = mc::choose(maxlen + 1); std::string s;
  for (int i = 0; i < n; i++) s += A[mc::choose((int)A.size())];
  return s;
}
static void json_chars() {
  std::string t = chars("{}[]:,\"\\a1-.et\n /", mc::thorough() ? 5 : 4);
  mc::note("text '%s'", t.c_str());
  plain_json(t);
  for (auto p : TP) mc::outcome(std::string(p) + (attempt(t, p) ? " tree" : " error"));
  mc::outcome(schema_attempt(t, "conduit_json") ? "schema" : "schema error");
}
static void json_tokens() {
  static const char *T[] = {"{", "}", "[", "]", ":", ",", "\"a\"", "\"dtype\"", "\"int32\"", "1", "-1.5", "null", "true", "18446744073709551615"};
  int n = mc::choose(mc::thorough() ? 7 : 6); std::string t;
  for (int i = 0; i < n; i++) { t += T[mc::choose(14)]; }
  mc::note("text '%s'", t.c_str());
  plain_json(t);
  mc::outcome(attempt(t, "conduit_json") ? "typed tree" : "typed error");
  mc::outcome(schema_attempt(t, "conduit_json") ? "schema" : "schema error");
}
static void yaml_chars() {
  std::string t = chars("a1:- \n[]{},\"'&*!|>?#\t", mc::thorough() ? 5 : 4);
  mc::note("text '%s'", t.c_str());
  mc::outcome(attempt(t, "yaml") ? "tree" : "error");
  mc::outcome(attempt(t, "conduit_yaml") ? "typed tree" : "typed error");
  mc::outcome(schema_attempt(t, "conduit_yaml") ? "schema" : "schema error");
  mc::observe(mc::hash_str(t));
}
static void yaml_tokens() {
  static const char *T[] = {"a: ", "b: ", "- ", "\n", "  ", "1", "x", "[", "]", "{", "}", ", ", "&r ", "*r", "!!t ", "|\n", "? ", "dtype: ", "int32"};
  int n = mc::choose(mc::thorough() ? 6 : 5); std::string t;
  for (int i = 0; i < n; i++) t += T[mc::choose(19)];
  mc::note("text '%s'", t.c_str());
  mc::outcome(attempt(t, "yaml") ? "tree" : "error");
  mc::outcome(attempt(t, "conduit_yaml") ? "typed tree" : "typed error");
  mc::outcome(schema_attempt(t, "conduit_yaml") ? "schema" : "schema error");
  mc::observe(mc::hash_str(t));
}
// objects with repeated or nested-looking names
static void names() {
  std::string n1 = chars("a/.0", 3), n2 = mc::flip() ? n1 : chars("a/.0", 2);
  static const char *W[] = {"1", "\"int8\"", "{\"a\":\"int8\"}", "[\"int8\",\"int8\"]"};
  std::string v1 = W[mc::choose(4)], v2 = W[mc::choose(4)];
  std::string t = "{\"" + n1 + "\":" + v1 + ",\"" + n2 + "\":" + v2 + "}";
  if (mc::flip()) t = "[" + t + "," + t + "]";
  mc::note("text '%s'", t.c_str());
  plain_json(t);
  static const char *P[] = {"yaml", "conduit_json", "conduit_yaml"};
  for (auto p : P) {
    bool ok = attempt(t, p);
    if (n1 == n2) MC_CHECK(!ok, "duplicate", "%s accepts a duplicate name: %s", p, t.c_str());
    mc::outcome(std::string(p) + (ok ? " tree" : " error"));
  }
  mc::outcome(schema_attempt(t, "conduit_json") ? "schema" : "schema error");
  mc::outcome(schema_attempt(t, "conduit_yaml") ? "schema" : "schema error");
}
// cyclic aliases
static void yaml_cycles() {
  static const char *T[] = {"&r ", "*r", "[", "]", ", ", "{", "}", "a: ", "1"};
  int n = mc::choose(mc::thorough() ? 8 : 7); std::string t;
  for (int i = 0; i < n; i++) t += T[mc::choose(9)];
  mc::note("text '%s'", t.c_str());
  mc::outcome(attempt(t, "yaml") ? "tree" : "error");
  if (t.find("*r") != std::string::npos) { mc::outcome(attempt(t, "conduit_yaml") ? "typed tree" : "typed error"); mc::outcome(schema_attempt(t, "conduit_yaml") ? "schema" : "schema error"); }
  mc::observe(mc::hash_str(t));
}
// mutations of valid documents
typedef std::vector<std::string> V;
static V lex(const std::string &s) { // JSON-like tokens
  V r; size_t i = 0;
  while (i < s.size()) {
    char c = s[i];
    if (c == '"') { size_t e = s.find('"', i + 1); r.push_back(s.substr(i, e - i + 1)); i = e + 1; }
    else if (strchr("{}[]:,", c)) { r.push_back(std::string(1, c)); i++; }
    else if (isspace((unsigned char)c)) i++;
    else { size_t e = i; while (e < s.size() && !strchr("{}[]:, \n\"", s[e])) e++; r.push_back(s.substr(i, e - i)); i = e; }
  }
  return r;
}
static const char *DOCS[] = {
  "{\"a\":{\"dtype\":\"int32\",\"number_of_elements\":2,\"offset\":0,\"stride\":4,\"element_bytes\":4,\"endianness\":\"little\",\"value\":[1,2]},\"b\":[{\"dtype\":\"char8_str\",\"number_of_elements\":3,\"value\":\"xy\"},\"float64\"]}",
  "{\"dtype\":{\"x\":\"int8\",\"y\":{\"dtype\":\"uint8\",\"length\":2,\"value\":1}},\"length\":2}",
  "{\"n\":{\"dtype\":\"int64\",\"value\":2},\"l\":{\"dtype\":{\"v\":\"float32\"},\"length\":{\"reference\":\"../n\"}}}",
  "{\"dtype\":\"float64\",\"value\":[1.5,-2,3]}",
};
static const char *B64[] = {
  "{\"schema\":{\"a\":{\"dtype\":\"int32\",\"number_of_elements\":2,\"offset\":0,\"stride\":4,\"element_bytes\":4,\"endianness\":\"little\"},\"b\":{\"dtype\":\"char8_str\",\"number_of_elements\":3,\"offset\":8,\"stride\":1,\"element_bytes\":1,\"endianness\":\"little\"}},\"data\":{\"base64\":\"AQAAAAIAAAB4eQA=\"}}",
  "{\"schema\":[\"int16\",{\"dtype\":\"uint8\",\"length\":2}],\"data\":{\"base64\":\"AQACAw==\"}}",
};
static const char *REPL[] = {"{", "}", "[", "]", ":", ",", "\"a\"", "\"dtype\"", "\"int8\"", "\"object\"", "\"empty\"", "\"value\"", "\"number_of_elements\"", "0", "1", "3", "-1", "1.5", "9999999999999", "18446744073709551615", "null", "true", "{}", "[]", "\"\"", "\"A\"", "\"!!!\"", "\"int64\"", "\"char8_str\"", "\"reference\""};
static const int NREPL = sizeof REPL / sizeof *REPL;
static bool bomb(const V &v) { // a list_of with a huge length is a request for that many nodes
  bool length = false, huge = false; // (the length may come through a reference)
  for (auto &x : v) { if (x == "\"length\"") length = true; if (x.size() > 6 && isdigit((unsigned char)x[0])) huge = true; }
  return length && huge;
}
static void mutate(V &v, int limit) {
  int k = mc::choose(4);
  if (k == 0) { v[mc::choose((int)v.size())] = REPL[mc::choose(limit)]; }
  else if (k == 1) { if (v.size() > 1) v.erase(v.begin() + mc::choose((int)v.size())); }
  else if (k == 2) { int i = mc::choose((int)v.size()); v.insert(v.begin() + i, v[i]); }
  else { int i = mc::choose((int)v.size()), j = mc::choose((int)v.size()); std::swap(v[i], v[j]); }
}
static std::string glue(const V &v) { std::string s; for (auto &x : v) s += x + " "; return s; }
static void mutants_of(const char *doc, const char *proto) {
  V v = lex(doc);
  int n = 1 + (mc::thorough() ? mc::choose(2) : 0);
  mutate(v, NREPL);
  if (n == 2) { int i = mc::choose((int)v.size()); v[i] = REPL[mc::choose(NREPL)]; }
  if (bomb(v)) { mc::outcome("skipped"); return; }
  std::string t = glue(v);
  mc::note("%s: %s", proto, t.c_str());
  mc::outcome(attempt(t, proto) ? "tree" : "error");
  if (strcmp(proto, "conduit_base64_json")) mc::outcome(schema_attempt(t, proto) ? "schema" : "schema error");
  mc::observe(mc::hash_str(t));
}
static void json_mutants() { mutants_of(DOCS[mc::choose(4)], "conduit_json"); }
static void base64_mutants() { mutants_of(B64[mc::choose(2)], "conduit_base64_json"); }
static void yaml_mutants() { mutants_of(DOCS[mc::choose(4)], "conduit_yaml"); } // JSON is YAML
static const char *YDOCS[] = {
  "a: \n  dtype: \"int32\"\n  number_of_elements: 2\n  value: [1, 2]\nb: \n  - \n    dtype: \"char8_str\"\n    number_of_elements: 3\n    value: \"xy\"\n  - \"float64\"\n",
  "a: \n  - \n    x: 1\n    y: [1.5, 2]\n  - \"s\\n\"\n  - \nb: 'q'\n",
};
static void yaml_edits() { // every single (double) character change of a YAML document
  std::string t = YDOCS[mc::choose(2)];
  static const std::string A("a1:- \n[]{},\"'&*!|>?#\t\\%");
  int n = 1 + (mc::thorough() ? mc::choose(2) : 0);
  for (int i = 0; i < n; i++) {
    int k = mc::choose(3), at = mc::choose((int)t.size());
    if (k == 0) t.erase(at, 1); else if (k == 1) t[at] = A[mc::choose((int)A.size())]; else t.insert(at, 1, A[mc::choose((int)A.size())]);
  }
  mc::note("text '%s'", t.c_str());
  mc::outcome(attempt(t, "yaml") ? "tree" : "error");
  mc::outcome(attempt(t, "conduit_yaml") ? "typed tree" : "typed error");
  mc::observe(mc::hash_str(t));
}
int main(int argc, char **argv) {
  cn::init();
  mc::Opt o; o.shard_depth = 3; o.leaks = true;
  return mc::main_(argc, argv, "C08",
    {{"json_chars", json_chars, o, "all texts up to length 4 (5) over 17 characters, as plain, typed and base64 JSON and as a schema"},
     {"json_tokens", json_tokens, o, "all sequences of up to 5 (6) of 14 JSON tokens; valid texts must give the tree they denote"},
     {"yaml_chars", yaml_chars, o, "all texts up to length 4 (5) over 21 characters special to YAML, plain and typed"},
     {"yaml_tokens", yaml_tokens, o, "all sequences of up to 4 (5) of 19 YAML tokens incl. anchors and aliases"},
     {"yaml_cycles", yaml_cycles, o, "all sequences of up to 6 (7) tokens that build anchors, aliases and flow containers"},
     {"names", names, o, "objects with two names over {a / . 0} up to length 3, equal or different, in all four readers"},
     {"json_mutants", json_mutants, o, "all single (and double) token mutations of 4 typed JSON documents"},
     {"base64_mutants", base64_mutants, o, "all single (and double) token mutations of 2 base64 documents"},
     {"yaml_mutants", yaml_mutants, o, "the same mutations read as typed YAML"},
     {"yaml_edits", yaml_edits, o, "all single (double) character edits of 2 YAML documents"}},
    {"a list_of with a huge length asks for that many nodes and is not explored", "documents with an explicit address are not explored: the text names memory of the process"});
}
