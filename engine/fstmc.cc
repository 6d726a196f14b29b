// Explicit-state explorer for OpenFst VectorFst<StdArc> files.
//
//   fstmc universal  F.fst [maxfail]        input language = all non-empty UTF-8 text?
//   fstmc raw        F.fst key,key,..        every path's field values = input text (modulo white space)
//
// Every command enumerates a finite state space breadth first and prints one
// JSON object: states, transitions, violations with shortest witnesses.
#include <algorithm>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <tuple>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>

using std::string;
using std::vector;

struct Arc { int il, ol; float w; int ns; };
struct Fst {
  int start = -1;
  vector<vector<Arc>> arcs;
  vector<float> fin;  // weight, inf if not final
  bool is_final(int q) const { return fin[q] < 1e30f; }
  int n() const { return (int)arcs.size(); }
};

template <class T> static T rd(std::istream& in) {
  T v; in.read(reinterpret_cast<char*>(&v), sizeof v);
  if (!in) { fprintf(stderr, "short read\n"); exit(3); }
  return v;
}
static string rds(std::istream& in) {
  int32_t n = rd<int32_t>(in); string s(n, 0); in.read(&s[0], n); return s;
}
static Fst load(const char* path) {
  std::ifstream in(path, std::ios::binary);
  if (!in) { fprintf(stderr, "cannot open %s\n", path); exit(3); }
  if (rd<int32_t>(in) != 2125659606) { fprintf(stderr, "bad magic %s\n", path); exit(3); }
  string ft = rds(in), at = rds(in);
  if (ft != "vector" || at != "standard") { fprintf(stderr, "unsupported fst %s %s\n", ft.c_str(), at.c_str()); exit(3); }
  rd<int32_t>(in); int32_t flags = rd<int32_t>(in); rd<uint64_t>(in);
  int64_t start = rd<int64_t>(in), ns = rd<int64_t>(in); rd<int64_t>(in);
  if (flags & 3) { fprintf(stderr, "symbol tables unsupported\n"); exit(3); }
  Fst f; f.start = (int)start; f.arcs.resize(ns); f.fin.resize(ns);
  for (int64_t s = 0; s < ns; s++) {
    f.fin[s] = rd<float>(in); int64_t na = rd<int64_t>(in); f.arcs[s].resize(na);
    for (auto& a : f.arcs[s]) { a.il = rd<int32_t>(in); a.ol = rd<int32_t>(in); a.w = rd<float>(in); a.ns = rd<int32_t>(in); }
  }
  return f;
}
// Keeps only arcs into co-accessible states.
static vector<char> coacc(const Fst& f) {
  vector<vector<int>> rev(f.n());
  for (int q = 0; q < f.n(); q++) for (auto& a : f.arcs[q]) rev[a.ns].push_back(q);
  vector<char> ok(f.n(), 0); vector<int> st;
  for (int q = 0; q < f.n(); q++) if (f.is_final(q)) { ok[q] = 1; st.push_back(q); }
  while (!st.empty()) { int q = st.back(); st.pop_back(); for (int p : rev[q]) if (!ok[p]) { ok[p] = 1; st.push_back(p); } }
  return ok;
}
static void trim(Fst& f) {
  auto ok = coacc(f);
  for (int q = 0; q < f.n(); q++) {
    auto& v = f.arcs[q];
    v.erase(std::remove_if(v.begin(), v.end(), [&](const Arc& a) { return !ok[a.ns]; }), v.end());
  }
}
static string jstr(const string& s) {  // bytes as a hex string: no encoding questions
  static const char* h = "0123456789abcdef"; string o = "\"";
  for (unsigned char c : s) { o += h[c >> 4]; o += h[c & 15]; }
  return o + "\"";
}

// ---- UTF-8 automaton (NUL excluded) -------------------------------------
// 0 = between characters
static int utf8_step(int u, int b) {
  switch (u) {
    case 0:
      if (b >= 1 && b <= 0x7f) return 0;
      if (b >= 0xc2 && b <= 0xdf) return 1;
      if (b == 0xe0) return 2;
      if ((b >= 0xe1 && b <= 0xec) || b == 0xee || b == 0xef) return 3;
      if (b == 0xed) return 4;
      if (b == 0xf0) return 5;
      if (b >= 0xf1 && b <= 0xf3) return 6;
      if (b == 0xf4) return 7;
      return -1;
    case 1: return b >= 0x80 && b <= 0xbf ? 0 : -1;
    case 2: return b >= 0xa0 && b <= 0xbf ? 1 : -1;
    case 3: return b >= 0x80 && b <= 0xbf ? 1 : -1;
    case 4: return b >= 0x80 && b <= 0x9f ? 1 : -1;
    case 5: return b >= 0x90 && b <= 0xbf ? 3 : -1;
    case 6: return b >= 0x80 && b <= 0xbf ? 3 : -1;
    case 7: return b >= 0x80 && b <= 0x8f ? 3 : -1;
  }
  return -1;
}

struct VecHash { size_t operator()(const vector<int>& v) const { uint64_t h = 1469598103934665603ull; for (int x : v) { h ^= (uint32_t)x; h *= 1099511628211ull; h ^= h >> 29; } return h; } };

// Input-side NFA with epsilon closure and per-set stepping.
struct InNfa {
  const Fst& f; vector<char> mark;
  explicit InNfa(const Fst& g) : f(g), mark(g.n(), 0) {}
  void close(vector<int>& s) {
    vector<int> out; out.reserve(s.size());
    vector<int> st;
    for (int q : s) if (!mark[q]) { mark[q] = 1; st.push_back(q); out.push_back(q); }
    while (!st.empty()) { int q = st.back(); st.pop_back();
      for (auto& a : f.arcs[q]) if (a.il == 0 && !mark[a.ns]) { mark[a.ns] = 1; st.push_back(a.ns); out.push_back(a.ns); } }
    for (int q : out) mark[q] = 0;
    std::sort(out.begin(), out.end()); s.swap(out);
  }
  bool accepts(const vector<int>& s) const { for (int q : s) if (f.is_final(q)) return true; return false; }
  // successors on every label at once
  void succ(const vector<int>& s, vector<vector<int>>& by) {
    by.assign(256, {});
    for (int q : s) for (auto& a : f.arcs[q]) if (a.il > 0 && a.il < 256) by[a.il].push_back(a.ns);
    for (int b = 1; b < 256; b++) if (!by[b].empty()) close(by[b]);
  }
};

static int cmd_universal(int argc, char** argv) {
  Fst f = load(argv[2]); trim(f);
  size_t maxfail = argc > 3 ? atoi(argv[3]) : 20;
  InNfa nfa(f);
  struct Node { int u; vector<int> s; int parent; int b; };
  std::deque<Node> nodes;                // stable storage
  struct Sig { uint64_t w[4] = {0, 0, 0, 0}; int id = 0; };   // Bloom signature: a set below t has no bit that t lacks
  std::map<int, vector<Sig>> sigs;
  std::unordered_set<vector<int>, VecHash> exact[8];
  auto sign = [](const vector<int>& v, int id) { Sig g; g.id = id; for (int q : v) { uint64_t h = (uint64_t)(uint32_t)q * 0x9E3779B97F4A7C15ull >> 56; g.w[h >> 6] |= 1ull << (h & 63); } return g; };
  vector<string> fails; uint64_t trans = 0, pruned = 0; size_t biggest = 0;
  auto word = [&](int id) { string w; while (nodes[id].parent >= 0) { w += (char)nodes[id].b; id = nodes[id].parent; } std::reverse(w.begin(), w.end()); return w; };
  vector<int> s0{f.start}; nfa.close(s0);
  nodes.push_back({0, s0, -1, 0});   // the empty text is not required to accept, so node 0 subsumes nothing
  size_t head = 0; bool capped = false; vector<vector<int>> by;
  while (head < nodes.size()) {
    int id = head++;
    nfa.succ(nodes[id].s, by);
    for (int b = 1; b < 256; b++) {
      int u = utf8_step(nodes[id].u, b); if (u < 0) continue;
      trans++;
      vector<int>& t = by[b];
      if (exact[u].count(t)) { pruned++; continue; }
      bool sub = false;
      Sig g = sign(t, (int)nodes.size());
      for (const Sig& o : sigs[u]) {
        if ((o.w[0] & ~g.w[0]) | (o.w[1] & ~g.w[1]) | (o.w[2] & ~g.w[2]) | (o.w[3] & ~g.w[3])) continue;
        const auto& so = nodes[o.id].s;
        if (so.size() <= t.size() && std::includes(t.begin(), t.end(), so.begin(), so.end())) { sub = true; break; }
      }
      exact[u].insert(t);              // seen: explored, or above an explored set
      if (sub) { pruned++; continue; }
      nodes.push_back({u, t, id, b}); int nid = nodes.size() - 1; sigs[u].push_back(g);
      biggest = std::max(biggest, t.size());
      if (t.empty() && u != 0) { // no path can continue: complete the character for a printable witness
        string w = word(nid); int v = u; while (v) { for (int c = 0x80; c < 0xc0; c++) { int x = utf8_step(v, c); if (x >= 0) { w += (char)c; v = x; break; } } }
        fails.push_back(w);
      } else if (u == 0 && !nfa.accepts(t)) fails.push_back(word(nid));
      if (fails.size() >= maxfail || nodes.size() > 2000000) { capped = true; goto done; }
    }
  }
done:
  printf("{\"states\": %zu, \"transitions\": %llu, \"pruned\": %llu, \"largest_set\": %zu, \"capped\": %s, \"fails\": [", nodes.size(), (unsigned long long)trans, (unsigned long long)pruned, biggest, capped ? "true" : "false");
  for (size_t i = 0; i < fails.size(); i++) printf("%s%s", i ? ", " : "", jstr(fails[i]).c_str());
  printf("]}\n");
  return 0;
}

// ---- raw preservation -----------------------------------------------------
static bool is_ws(const string& c) {
  if (c.size() == 1) { unsigned char b = c[0]; return b == 32 || (b >= 9 && b <= 13); }
  return c == "\xc2\xa0";
}
static int char_len(unsigned char b) { return b < 0x80 ? 1 : b < 0xe0 ? 2 : b < 0xf0 ? 3 : 4; }

enum { OUT, NAME, AFTER_NAME, AFTER_BRACE, IN, KEY, COLON, COLON_SP, VAL, ESC, BAD };
struct Mon { int st = OUT; string key; };

static bool isname(int b) { return (b >= 'a' && b <= 'z') || (b >= 'A' && b <= 'Z') || b == '_'; }

// Steps the wire-format monitor; returns the raw byte emitted inside a value or -1.
static int mon_step(Mon& m, int b, bool* value_char) {
  *value_char = false;
  switch (m.st) {
    case OUT: if (b == ' ') return -1; if (isname(b)) { m.st = NAME; return -1; } break;
    case NAME: if (isname(b)) return -1; if (b == ' ') { m.st = AFTER_NAME; return -1; } break;
    case AFTER_NAME: if (b == '{') { m.st = AFTER_BRACE; return -1; } break;
    case AFTER_BRACE: if (b == ' ') { m.st = IN; return -1; } break;
    case IN: if (b == ' ') return -1; if (b == '}') { m.st = OUT; return -1; }
      if (isname(b)) { m.st = KEY; m.key.assign(1, (char)b); return -1; } break;
    case KEY: if (isname(b)) { if (m.key.size() < 40) m.key += (char)b; return -1; } if (b == ':') { m.st = COLON; return -1; } break;
    case COLON: if (b == ' ') { m.st = COLON_SP; return -1; } break;
    case COLON_SP: if (b == '"') { m.st = VAL; return -1; } break;
    case VAL: if (b == '"') { m.st = IN; m.key.clear(); return -1; } if (b == '\\') { m.st = ESC; return -1; }
      *value_char = true; return b;
    case ESC: m.st = VAL; if (b == '"' || b == '\\') { *value_char = true; return b; } break;  // any other escape is not produced by the encoder
  }
  m.st = BAD; return -1;
}

static int cmd_raw(int argc, char** argv) {
  Fst f = load(argv[2]); trim(f);
  std::set<string> synthetic;
  if (argc > 3) { string s = argv[3]; size_t i = 0; while (i <= s.size()) { size_t j = s.find(',', i); if (j == string::npos) j = s.size(); if (j > i) synthetic.insert(s.substr(i, j - i)); i = j + 1; } }
  // Characters a tagger may drop, and only between two fields of one token.
  std::set<string> seps;
  if (argc > 4) { string t = argv[4]; size_t i = 0; while (i < t.size()) { int l = char_len((unsigned char)t[i]); seps.insert(t.substr(i, l)); i += l; } }
  std::set<string> lead;   // may also be dropped before the first field of a token
  if (argc > 5) { string t = argv[5]; size_t i = 0; while (i < t.size()) { int l = char_len((unsigned char)t[i]); lead.insert(t.substr(i, l)); i += l; } }
  // "key=value" markers: a first field which names the token's form and holds no input
  std::set<std::pair<string, string>> markers;
  if (argc > 6) { string t = argv[6]; size_t i = 0; while (i < t.size()) { size_t j = t.find(',', i); if (j == string::npos) j = t.size(); string one = t.substr(i, j - i); size_t e = one.find('='); markers.insert({one.substr(0, e), one.substr(e + 1)}); i = j + 1; } }
  auto marker_prefix = [&](const string& key, const string& v) { for (auto& m : markers) if (m.first == key && m.second.compare(0, v.size(), v) == 0) return true; return false; };
  struct St { int q; Mon m; string ip, op, iq, oq, hold; bool gap = false, first = true, ofirst = true, holding = false; };
  auto enc = [](const St& s) { string k; k.reserve(32); k.append((const char*)&s.q, 4); k += (char)s.m.st; k += s.m.key; k += '\1'; k += s.ip; k += '\1'; k += s.op; k += '\1'; k += s.iq; k += '\2'; k += s.oq; k += '\2'; k += s.hold; k += (char)(3 + s.gap + 2 * s.first + 4 * s.ofirst + 8 * s.holding); return k; };
  struct Rec { St s; int parent; int il, ol; };
  std::deque<Rec> recs; std::unordered_map<string, int> seen; uint64_t trans = 0; size_t maxdelay = 0;
  struct Fail { string why, in, out; }; vector<Fail> fails;
  auto witness = [&](int id, string& in, string& out) { vector<int> path; while (id >= 0) { path.push_back(id); id = recs[id].parent; }
    std::reverse(path.begin(), path.end()); for (int p : path) { if (recs[p].il) in += (char)recs[p].il; if (recs[p].ol) out += (char)recs[p].ol; } };
  auto fail = [&](const string& why, int id, int il, int ol) { Fail x; x.why = why; witness(id, x.in, x.out); if (il) x.in += (char)il; if (ol) x.out += (char)ol; fails.push_back(x); };
  St s0{f.start, Mon(), "", "", "", ""}; recs.push_back({s0, -1, 0, 0}); seen[enc(s0)] = 0;
  size_t head = 0; bool capped = false; std::map<string, int> dropped;
  while (head < recs.size() && fails.size() < 40) {
    int id = head++; St cur = recs[id].s;
    if (f.is_final(cur.q)) {
      if (cur.m.st != OUT) fail("stream ends inside a token", id, 0, 0);
      else if (!cur.iq.empty() || !cur.ip.empty()) fail("input text missing from the fields", id, 0, 0);
      else if (!cur.oq.empty() || !cur.op.empty()) fail("fields contain text that is not in the input", id, 0, 0);
    }
    for (auto& a : f.arcs[cur.q]) {
      trans++;
      St n = cur; n.q = a.ns; bool bad = false; string why;
      if (a.il) {
        n.ip += (char)a.il;
        if ((int)n.ip.size() >= char_len((unsigned char)n.ip[0])) { if (!is_ws(n.ip)) n.iq += n.ip; n.ip.clear(); }
      }
      if (a.ol && !bad) {
        bool vc; bool syn = (n.m.st == VAL || n.m.st == ESC) && synthetic.count(n.m.key);
        int before = n.m.st;
        string key = n.m.key;
        int b = mon_step(n.m, a.ol, &vc);
        auto put = [&](char c) { n.op += c; if ((int)n.op.size() >= char_len((unsigned char)n.op[0])) { if (!is_ws(n.op)) n.oq += n.op; n.op.clear(); } };
        if (before == COLON_SP && n.m.st == VAL && n.ofirst && marker_prefix(n.m.key, "")) { n.holding = true; n.hold.clear(); }
        if (before == VAL && n.m.st == IN) {
          n.ofirst = false;
          if (n.holding) { if (!markers.count({key, n.hold})) for (char c : n.hold) put(c); n.holding = false; n.hold.clear(); }
        }
        if (before == IN && n.m.st == OUT) n.ofirst = true;
        if (n.m.st == BAD) { bad = true; why = "malformed token stream"; }
        else if (before == VAL && n.m.st == IN && !syn) n.oq += '\xfe';   // a field ends
        else if (before == IN && n.m.st == OUT) n.oq += '\xff';           // a token ends
        else if (vc && !syn && n.holding) {
          n.hold += (char)b;
          if (!marker_prefix(key, n.hold)) { for (char c : n.hold) put(c); n.holding = false; n.hold.clear(); }
        } else if (vc && !syn) put((char)b);
      }
      if (!bad) {
        while (!n.oq.empty()) {
          if (n.oq[0] == '\xfe') { n.gap = true; n.oq.erase(0, 1); continue; }
          if (n.oq[0] == '\xff') { n.gap = false; n.first = true; n.oq.erase(0, 1); continue; }
          if (n.iq.empty()) break;
          int li = char_len((unsigned char)n.iq[0]), lo = char_len((unsigned char)n.oq[0]);
          if (li == lo && n.iq.compare(0, li, n.oq, 0, lo) == 0) { n.gap = n.first = false; n.iq.erase(0, li); n.oq.erase(0, lo); continue; }
          if ((n.gap && seps.count(n.iq.substr(0, li))) || (n.first && lead.count(n.iq.substr(0, li)))) { dropped[n.iq.substr(0, li)]++; n.iq.erase(0, li); continue; }
          bad = true; why = "field value differs from the input text"; break;
        }
        maxdelay = std::max(maxdelay, std::max(n.iq.size(), n.oq.size()));
        if (n.iq.size() > 120 || n.oq.size() > 120) { bad = true; why = "delay exceeds 120 bytes"; }
      }
      if (bad) { fail(why, id, a.il, a.ol); if (fails.size() >= 40) break; continue; }
      string k = enc(n);
      if (seen.emplace(k, (int)recs.size()).second) recs.push_back({n, id, a.il, a.ol});
      if (recs.size() > 8000000) { capped = true; break; }
    }
    if (capped) break;
  }
  printf("{\"dropped\": {");
  { bool first = true; for (auto& d : dropped) { printf("%s%s: %d", first ? "" : ", ", jstr(d.first).c_str(), d.second); first = false; } }
  printf("}, \"states\": %zu, \"transitions\": %llu, \"max_delay\": %zu, \"capped\": %s, \"fails\": [", recs.size(), (unsigned long long)trans, maxdelay, capped ? "true" : "false");
  for (size_t i = 0; i < fails.size(); i++) printf("%s{\"why\": \"%s\", \"in\": %s, \"out\": %s}", i ? ", " : "", fails[i].why.c_str(), jstr(fails[i].in).c_str(), jstr(fails[i].out).c_str());
  printf("]}\n");
  return 0;
}

// ---- every tagging is verbalizable -----------------------------------------
// Decides, for token streams of any length: for every path of the tagger, the
// emitted token stream, with each token's fields put in the pipeline's order,
// is in the verbalizer's input language.  State space: (position in the tagger
// inside the current token's field chain, determinized verbalizer state set).
static int cmd_accept(int argc, char** argv) {
  Fst t = load(argv[2]); trim(t);
  Fst v = load(argv[3]); trim(v);
  // argv[4]: "date:year,month,day;money:value,currency"
  std::map<string, vector<string>> orders;
  if (argc > 4) {
    string s = argv[4]; size_t i = 0;
    while (i < s.size()) {
      size_t e = s.find(';', i); if (e == string::npos) e = s.size();
      string one = s.substr(i, e - i); size_t c = one.find(':'); vector<string> ks; size_t k = c + 1;
      while (k <= one.size()) { size_t j = one.find(',', k); if (j == string::npos) j = one.size(); if (j > k) ks.push_back(one.substr(k, j - k)); k = j + 1; }
      orders[one.substr(0, c)] = ks; i = e + 1;
    }
  }
  size_t maxfail = argc > 5 ? atoi(argv[5]) : 10;
  size_t maxnodes = argc > 6 ? strtoull(argv[6], 0, 10) : 60000000;
  // product of the tagger with the wire-format monitor
  struct G { int q; int st; int name, key; };
  vector<G> g; vector<vector<std::tuple<int, int, int>>> ge;  // (il, ol, next)
  std::map<string, int> intern; vector<string> strs;
  auto in = [&](const string& s) { auto it = intern.find(s); if (it != intern.end()) return it->second; int id = strs.size(); intern[s] = id; strs.push_back(s); return id; };
  std::unordered_map<uint64_t, int> gid;
  auto getg = [&](int q, int st, int name, int key) { uint64_t k = ((uint64_t)q << 32) ^ ((uint64_t)st << 28) ^ ((uint64_t)name << 14) ^ key;
    auto it = gid.find(k); if (it != gid.end()) return it->second; int id = g.size(); gid[k] = id; g.push_back({q, st, name, key}); return id; };
  int none = in(""); getg(t.start, OUT, none, none);
  uint64_t trans = 0; string malformed;
  for (size_t i = 0; i < g.size(); i++) {
    ge.emplace_back(); G c = g[i];
    for (auto& a : t.arcs[c.q]) {
      if (!a.ol) { ge[i].push_back({a.il, 0, getg(a.ns, c.st, c.name, c.key)}); continue; }
      int b = a.ol, st = c.st, name = c.name, key = c.key, ns = BAD;
      switch (st) {
        case OUT: if (b == ' ') ns = OUT; else if (isname(b)) { ns = NAME; name = in(string(1, (char)b)); } break;
        case NAME: if (isname(b)) { if (strs[name].size() > 40) break; ns = NAME; name = in(strs[name] + (char)b); } else if (b == ' ') ns = AFTER_NAME; break;
        case AFTER_NAME: if (b == '{') ns = AFTER_BRACE; break;
        case AFTER_BRACE: if (b == ' ') ns = IN; break;
        case IN: if (b == ' ') ns = IN; else if (b == '}') { ns = OUT; name = none; } else if (isname(b)) { ns = KEY; key = in(string(1, (char)b)); } break;
        case KEY: if (isname(b)) { if (strs[key].size() > 40) break; ns = KEY; key = in(strs[key] + (char)b); } else if (b == ':') ns = COLON; break;
        case COLON: if (b == ' ') ns = COLON_SP; break;
        case COLON_SP: if (b == '"') ns = VAL; break;
        case VAL: if (b == '"') { ns = IN; key = none; } else if (b == '\\') ns = ESC; else ns = VAL; break;
        case ESC: ns = VAL; break;
      }
      if (ns == BAD) { malformed = strs[c.name]; continue; }
      ge[i].push_back({a.il, b, getg(a.ns, ns, name, key)});
    }
  }
  size_t NG = g.size();
  // macro graph
  struct Macro { int to; int key; int name; string il; };     // literal moves between fields
  auto literal_moves = [&](int from, bool stop_at_out) {       // from an OUT node or a field-exit node
    vector<Macro> out; std::unordered_map<int, std::pair<int, int>> par; std::deque<int> bf{from}; par[from] = {-1, 0};
    auto path = [&](int x) { string s; while (x != from) { auto p = par[x]; if (p.second) s += (char)p.second; x = p.first; } std::reverse(s.begin(), s.end()); return s; };
    while (!bf.empty()) { int x = bf.front(); bf.pop_front();
      for (auto& e : ge[x]) { int y = std::get<2>(e); 
        bool entry = g[x].st == COLON_SP && g[y].st == VAL;
        bool end = stop_at_out && g[x].st == IN && g[y].st == OUT;
        if (g[y].st == VAL && !entry) continue;
        if (!par.count(y)) { par[y] = {x, std::get<0>(e)};
          if (entry) out.push_back({y, g[y].key, g[y].name, path(y)});
          else if (end) out.push_back({y, -1, -1, path(y)});
          else bf.push_back(y); } } }
    return out;
  };
  // values: entry -> exits
  std::unordered_map<int, vector<int>> exits_memo;
  auto exits = [&](int entry) -> vector<int>& {
    auto it = exits_memo.find(entry); if (it != exits_memo.end()) return it->second;
    vector<int> out; std::unordered_set<int> seen{entry}; vector<int> st{entry}; std::set<int> ex;
    while (!st.empty()) { int x = st.back(); st.pop_back();
      for (auto& e : ge[x]) { int y = std::get<2>(e);
        if (g[y].st == IN) { ex.insert(y); continue; }
        if (seen.insert(y).second) st.push_back(y); } }
    out.assign(ex.begin(), ex.end());
    return exits_memo[entry] = out;
  };
  // which value nodes can still reach a given exit
  std::unordered_map<uint64_t, std::unordered_set<int>> co_memo;
  vector<vector<int>> rev(NG);
  for (size_t i = 0; i < NG; i++) for (auto& e : ge[i]) rev[std::get<2>(e)].push_back(i);
  std::unordered_map<int, std::unordered_set<int>> co;
  auto can_reach = [&](int exit) -> std::unordered_set<int>& {
    auto it = co.find(exit); if (it != co.end()) return it->second;
    std::unordered_set<int> s; vector<int> st;
    for (int p : rev[exit]) if (g[p].st == VAL && s.insert(p).second) st.push_back(p);
    while (!st.empty()) { int x = st.back(); st.pop_back(); for (int p : rev[x]) if ((g[p].st == VAL || g[p].st == ESC) && s.insert(p).second) st.push_back(p); }
    return co[exit] = s;
  };
  struct Field { int key, entry, exit; string il; };
  struct Chain { int name; vector<Field> f; vector<int> order; int to; string il_end; };
  vector<Chain> chains; std::unordered_map<int, vector<int>> chains_of;
  std::map<vector<int>, int> chain_id;
  bool exploded = false;
  auto get_chains = [&](int o) -> vector<int>& {
    auto it = chains_of.find(o); if (it != chains_of.end()) return it->second;
    vector<int> ids; Chain cur; 
    std::function<void(int)> fields = [&](int x) {  // x: a field exit
      if (exploded) return;
      for (auto& m : literal_moves(x, true)) {
        if (m.key < 0) { Chain c = cur; c.to = m.to; c.il_end = m.il;
          vector<int> sig; for (auto& f : c.f) { sig.push_back(f.entry); sig.push_back(f.exit); } sig.push_back(c.to);
          auto f = chain_id.find(sig); int id;
          if (f == chain_id.end()) { 
            vector<string> keys; for (auto& fl : c.f) keys.push_back(strs[fl.key]);
            bool po = false; for (auto& k : keys) if (k == "preserve_order") po = true;
            auto od = orders.find(strs[c.name]);
            if (od != orders.end() && !po) {
              for (auto& k : od->second) for (size_t i = 0; i < keys.size(); i++) if (keys[i] == k) c.order.push_back(i);
              for (size_t i = 0; i < keys.size(); i++) if (std::find(od->second.begin(), od->second.end(), keys[i]) == od->second.end()) c.order.push_back(i);
            } else for (size_t i = 0; i < keys.size(); i++) c.order.push_back(i);
            id = chains.size(); chains.push_back(c); chain_id[sig] = id; if (chains.size() > 200000) exploded = true; }
          else id = f->second;
          ids.push_back(id); continue; }
        if (cur.f.size() >= 12) { exploded = true; return; }
        for (int ex : exits(m.to)) { cur.f.push_back({m.key, m.to, ex, m.il}); fields(ex); cur.f.pop_back(); }
      }
    };
    for (auto& m : literal_moves(o, false)) { cur = Chain(); cur.name = g[o].name; for (int ex : exits(m.to)) { cur.f.assign(1, {m.key, m.to, ex, m.il}); fields(ex); } }
    std::sort(ids.begin(), ids.end()); ids.erase(std::unique(ids.begin(), ids.end()), ids.end());
    return chains_of[o] = ids;
  };
  // lazily determinized verbalizer
  InNfa nfa(v); vector<vector<int>> sets; std::unordered_map<vector<int>, int, VecHash> set_id; vector<char> set_acc; vector<vector<int>> step_memo;
  auto sid = [&](vector<int>& s) { auto it = set_id.find(s); if (it != set_id.end()) return it->second; int id = sets.size(); set_id[s] = id; sets.push_back(s); set_acc.push_back(nfa.accepts(s)); step_memo.emplace_back(256, -2); return id; };
  auto step = [&](int s, int b) { int& m = step_memo[s][b]; if (m != -2) return m; vector<int> out; for (int q : sets[s]) for (auto& a : v.arcs[q]) if (a.il == b) out.push_back(a.ns);
    if (out.empty()) return step_memo[s][b] = -1;
    nfa.close(out); int r = sid(out); return step_memo[s][b] = r; };
  auto steps = [&](int s, const string& w) { for (unsigned char c : w) { if (s < 0) return s; s = step(s, c); } return s; };
  // exploration
  struct N { int kind; int a, j, node, set; int parent; int il, ol; };  // kind 0: boundary (node), 1: in chain a, field order index j, at tagger node
  vector<N> ns; ns.reserve(1 << 20); 
  struct KeyH { size_t operator()(const std::pair<uint64_t, uint64_t>& p) const { return p.first * 0x9E3779B97F4A7C15ull ^ (p.second * 0xC2B2AE3D27D4EB4Full >> 7); } };
  std::unordered_set<std::pair<uint64_t, uint64_t>, KeyH> seen;
  auto push = [&](N n) { std::pair<uint64_t, uint64_t> k{((uint64_t)n.kind << 62) ^ ((uint64_t)(uint32_t)n.a << 8) ^ (uint64_t)n.j, ((uint64_t)(uint32_t)n.node << 32) | (uint32_t)n.set}; if (seen.insert(k).second) ns.push_back(n); };
  struct Fail { string why, in, tagged, reordered; }; vector<Fail> fails; std::set<string> fail_names;
  auto fail = [&](const string& why, int id) {
    // rebuild the token stream from the parent chain
    vector<int> path; for (int x = id; x >= 0; x = ns[x].parent) path.push_back(x);
    std::reverse(path.begin(), path.end());
    Fail f; f.why = why; size_t i = 0;
    while (i < path.size()) {
      if (ns[path[i]].kind == 0) {
        auto& n = ns[path[i]];
        if (n.il) f.in += (char)n.il;
        if (n.ol) f.tagged += (char)n.ol;
        i++; continue;
      }
      int c = ns[path[i]].a; auto& ch = chains[c]; vector<string> val(ch.f.size()), vil(ch.f.size()); int lastj = 0;
      while (i < path.size() && ns[path[i]].kind != 0 && ns[path[i]].a == c) { auto& n = ns[path[i]]; int fi = ch.order[n.j]; if (n.ol) val[fi] += (char)n.ol; if (n.il) vil[fi] += (char)n.il; lastj = n.j; i++; }
      bool complete = i < path.size();
      // complete unfinished fields with a shortest value
      for (size_t fi = 0; fi < ch.f.size(); fi++) {
        size_t pos = std::find(ch.order.begin(), ch.order.end(), (int)fi) - ch.order.begin();
        if (complete || (int)pos < lastj) continue;
        int from = (int)pos == lastj ? ns[path[i - 1]].node : ch.f[fi].entry;
        std::unordered_map<int, std::tuple<int, int, int>> par; std::deque<int> bf{from}; par[from] = {-1, 0, 0};
        while (!bf.empty()) { int x = bf.front(); bf.pop_front(); bool done = false;
          for (auto& e : ge[x]) { int y = std::get<2>(e); if (y != ch.f[fi].exit && g[y].st != VAL && g[y].st != ESC) continue; if (!par.count(y)) { par[y] = {x, std::get<0>(e), std::get<1>(e)}; bf.push_back(y); if (y == ch.f[fi].exit) { done = true; break; } } }
          if (done) break; }
        string vi, vo; int x = ch.f[fi].exit; if (par.count(x)) while (x != from) { auto p = par[x]; if (std::get<1>(p)) vi += (char)std::get<1>(p); if (std::get<2>(p)) vo += (char)std::get<2>(p); x = std::get<0>(p); }
        std::reverse(vi.begin(), vi.end()); std::reverse(vo.begin(), vo.end()); if (!vo.empty() && vo.back() == '"') vo.pop_back();
        vil[fi] += vi; val[fi] += vo; }
      for (auto& s : val) if (!s.empty() && s.back() == '"' && !(s.size() > 1 && s[s.size() - 2] == '\\')) s.pop_back();
      f.tagged += "{";
      for (size_t fi = 0; fi < ch.f.size(); fi++) { f.tagged += " " + strs[ch.f[fi].key] + ": \"" + val[fi] + "\""; f.in += ch.f[fi].il + vil[fi]; }
      f.in += ch.il_end; f.tagged += " }"; fail_names.insert(strs[ch.name]);
    }
    // complete the token stream after the point of rejection
    { int from = ns[id].kind == 0 ? ns[id].node : -1;
      if (from >= 0) { std::unordered_map<int, std::tuple<int, int, int>> par; std::deque<int> bf{from}; par[from] = {-1, 0, 0}; int goal = -1;
        if (t.is_final(g[from].q) && g[from].st == OUT) goal = from;
        while (goal < 0 && !bf.empty()) { int x = bf.front(); bf.pop_front();
          for (auto& e : ge[x]) { int y = std::get<2>(e); if (!par.count(y)) { par[y] = {x, std::get<0>(e), std::get<1>(e)}; bf.push_back(y); if (t.is_final(g[y].q) && g[y].st == OUT) { goal = y; break; } } } }
        string vi, vo; int x = goal; if (goal >= 0) while (x != from) { auto p = par[x]; if (std::get<1>(p)) vi += (char)std::get<1>(p); if (std::get<2>(p)) vo += (char)std::get<2>(p); x = std::get<0>(p); }
        std::reverse(vi.begin(), vi.end()); std::reverse(vo.begin(), vo.end()); f.in += vi; f.tagged += vo; } }
    fails.push_back(f);
  };
  vector<int> s0{v.start}; nfa.close(s0); int start = sid(s0);
  push({0, 0, 0, 0, start, -1, 0, 0});
  size_t head = 0; bool capped = false; uint64_t boundaries = 0;
  std::set<std::pair<int, int>> failed_chain; std::set<string> failed_direct;
  while (head < ns.size() && fails.size() < maxfail) {
    int id = head++; N n = ns[id];
    if (n.kind == 2 || n.set < 0) continue;   // records the closing arc of a field on the path
    if (n.kind == 0) {
      // walking the tagger directly; the set has consumed the re-serialized stream so far
      const G cur = g[n.node];
      if (cur.st == OUT) {
        boundaries++;
        if (n.a == 1 && t.is_final(cur.q) && !set_acc[n.set]) { fail("the verbalizer rejects the complete stream", id); continue; }
      }
      if (cur.st == AFTER_NAME && orders.count(strs[cur.name])) {
        for (int c : get_chains(n.node)) {
          auto& ch = chains[c];
          int s = steps(n.set, "{ " + strs[ch.f[ch.order[0]].key] + ": \"");
          trans++;
          N m{1, c, 0, ch.f[ch.order[0]].entry, s, id, 0, 0};
          if (s < 0) { if (failed_chain.insert({c, -1}).second) { ns.push_back(m); fail("the verbalizer rejects the token's start", ns.size() - 1); } continue; }
          push(m);
        }
        if (exploded) break;
        continue;
      }
      for (auto& e : ge[n.node]) {
        int il = std::get<0>(e), ol = std::get<1>(e), y = std::get<2>(e); trans++;
        int s = n.set, flag = n.a;
        if (ol) {
          int from = cur.st, to = g[y].st;
          if (from == OUT && to == OUT) { }
          else if (from == OUT) { if (n.a == 1) s = step(s, ' '); if (s >= 0) s = step(s, ol); flag = 1; }
          else if (from == AFTER_BRACE) { }
          else if (from == IN && to == IN) { }
          else if (from == IN && (to == KEY || to == OUT)) { s = step(s, ' '); if (s >= 0) s = step(s, ol); }
          else s = step(s, ol);
        }
        N m{0, flag, 0, y, s, id, il, ol};
        if (s < 0) { if (failed_direct.insert(strs[cur.name] + "/" + strs[cur.key]).second) { ns.push_back(m); fail("the verbalizer rejects the stream", ns.size() - 1); if (fails.size() >= maxfail) break; } continue; }
        push(m);
      }
    } else {
      auto& ch = chains[n.a]; auto& f = ch.f[ch.order[n.j]]; auto& ok = can_reach(f.exit);
      for (auto& e : ge[n.node]) {
        int il = std::get<0>(e), ol = std::get<1>(e), y = std::get<2>(e); trans++;
        if (y != f.exit && !ok.count(y)) continue;
        int s = ol ? step(n.set, ol) : n.set;
        N m{1, n.a, n.j, y, s, id, il, ol};
        if (s < 0) { if (failed_chain.insert({n.a, n.j}).second) { ns.push_back(m); if (y == f.exit) { } fail("the verbalizer rejects a field value", ns.size() - 1); if (fails.size() >= maxfail) break; } continue; }
        if (y != f.exit) { push(m); continue; }
        // field complete
        if (n.j + 1 < (int)ch.order.size()) {
          auto& nf = ch.f[ch.order[n.j + 1]]; s = steps(s, " " + strs[nf.key] + ": \"");
          // keep the closing arc's input on the path: a node for the exit, then the next entry
          ns.push_back(m); int mid = ns.size() - 1; ns[mid].kind = 2;
          N k{1, n.a, n.j + 1, nf.entry, s, mid, 0, 0};
          if (s < 0) { if (failed_chain.insert({n.a, n.j + 100}).second) { ns.push_back(k); fail("the verbalizer rejects the field order", ns.size() - 1); } continue; }
          size_t before = ns.size(); push(k); if (ns.size() == before) ns.pop_back();
        } else {
          s = steps(s, " }");
          ns.push_back(m); int mid = ns.size() - 1; ns[mid].kind = 2;
          N k{0, 1, 0, ch.to, s, mid, 0, 0};
          if (s < 0) { if (failed_chain.insert({n.a, 999}).second) { ns.push_back(k); fail("the verbalizer rejects the token's end", ns.size() - 1); } continue; }
          // a boundary other than the very first one
          size_t before = ns.size(); push(k); if (ns.size() == before) ns.pop_back();
        }
      }
    }
    if (ns.size() > maxnodes) { capped = true; break; }
  }
  printf("{\"tagger_nodes\": %zu, \"chains\": %zu, \"verbalizer_sets\": %zu, \"states\": %zu, \"boundaries\": %llu, \"transitions\": %llu, \"capped\": %s, \"exploded\": %s, \"malformed\": %s, \"fails\": [", NG, chains.size(), sets.size(), ns.size(), (unsigned long long)boundaries, (unsigned long long)trans, capped ? "true" : "false", exploded ? "true" : "false", jstr(malformed).c_str());
  for (size_t i = 0; i < fails.size(); i++) printf("%s{\"why\": \"%s\", \"in\": %s, \"tagged\": %s}", i ? ", " : "", fails[i].why.c_str(), jstr(fails[i].in).c_str(), jstr(fails[i].tagged).c_str());
  printf("]}\n");
  return 0;
}

int main(int argc, char** argv) {
  if (argc < 3) return 3;
  string c = argv[1];
  if (c == "universal") return cmd_universal(argc, argv);
  if (c == "accept") return cmd_accept(argc, argv);
  if (c == "raw") return cmd_raw(argc, argv);
  fprintf(stderr, "unknown command\n"); return 3;
}
