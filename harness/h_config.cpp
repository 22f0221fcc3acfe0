// P05 parsing, P06 malformed scripts, P07 copy/merge histories, P08 typed settings
#include "pbt.h"
#include <fstream>
#include <iostream>
#include <memory>
#include <algorithm>
#include <limits>
#include <softlib/Configuration.h>
#include <softlib/Configuration/ConfigurationScript.h>
#include <softlib/Configuration/ConfigurationSFile.h>
#include <softlib/SOFTLibException.h>
using namespace std; using namespace pbt;

// ---------------------------------------------------------------- model
struct MSet { string name; vector<string> v; bool touched = false; };
struct MBlk { size_t type = 0; string name, stype; vector<MSet> set; vector<MBlk> sub;
    MSet *find(const string& n) { for (auto& s : set) if (s.name == n) return &s; return nullptr; }
    MBlk *find(size_t t, const string& n) { for (auto& b : sub) if (b.type == t && b.name == n) return &b; return nullptr; } };
static string show(const MBlk& b) { string o = "{" + to_string(b.type) + ":" + str(b.name) + "(" + b.stype + ")";
    for (auto& s : b.set) { o += " " + str(s.name) + "="; for (auto& v : s.v) o += str(v) + ","; if (s.touched) o += "*"; }
    for (auto& x : b.sub) o += show(x); return o + "}"; }
static void compare(Ctx& c, const MBlk& m, ConfigBlock *b, ConfigBlock *parent, const string& path, bool touched) {
    c.require(b != nullptr, path + ": block is null");
    c.require(b->GetType() == m.type, path + ": block type is " + to_string(b->GetType()) + ", expected " + to_string(m.type));
    c.require(b->GetName() == m.name, path + ": block name is " + str(b->GetName()) + ", expected " + str(m.name));
    c.require(b->GetSecondaryType() == (m.stype.empty() ? m.name : m.stype), path + ": secondary type is " + str(b->GetSecondaryType()) + ", expected " + str(m.stype));
    c.require(b->GetParent() == parent, path + ": wrong parent block"); c.require(b->HasParent() == (parent != nullptr), path + ": HasParent is wrong");
    vector<Setting*> s = b->GetAllSettings();
    c.require(s.size() == m.set.size(), path + ": " + to_string(s.size()) + " settings, expected " + to_string(m.set.size()));
    for (size_t i = 0; i < s.size(); i++) {
        c.require(s[i]->GetName() == m.set[i].name, path + ": setting " + to_string(i) + " is named " + str(s[i]->GetName()) + ", expected " + str(m.set[i].name));
        vector<string> v = s[i]->GetTextVector();
        c.require(s[i]->GetNumberOfValues() == m.set[i].v.size() && v.size() == m.set[i].v.size(), path + "/" + m.set[i].name + ": has " + to_string(v.size()) + " values, expected " + to_string(m.set[i].v.size()));
        for (size_t k = 0; k < v.size(); k++) c.require(v[k] == m.set[i].v[k] && s[i]->GetString(k) == v[k], path + "/" + m.set[i].name + ": value " + to_string(k) + " is " + str(v[k]) + ", expected " + str(m.set[i].v[k]));
        if (touched) c.require(s[i]->Touched() == m.set[i].touched, path + "/" + m.set[i].name + ": touched flag is " + to_string(s[i]->Touched()));
    }
    vector<ConfigBlock*> sb = b->GetAllSubBlocks();
    c.require(sb.size() == m.sub.size(), path + ": " + to_string(sb.size()) + " sub-blocks, expected " + to_string(m.sub.size()));
    c.require(b->HasSubBlocks() == !m.sub.empty(), path + ": HasSubBlocks is wrong");
    for (size_t i = 0; i < sb.size(); i++) compare(c, m.sub[i], sb[i], b, path + "/" + m.sub[i].name, touched);
}
struct NullBuf : streambuf { int overflow(int ch) override { return ch; } };
struct Quiet { NullBuf nb; streambuf *e, *o; Quiet() { e = cerr.rdbuf(&nb); o = cout.rdbuf(&nb); } ~Quiet() { cerr.rdbuf(e); cout.rdbuf(o); } };

// ---------------------------------------------------------------- generator
static const char *BARE = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_.+-*/:@$%&!?|~^'`[]\\";
enum TK { K_NAME, K_EQ, K_VAL, K_COMMA, K_SEMI, K_BTYPE, K_BNAME, K_LPAR, K_STYPE, K_RPAR, K_LBR, K_RBR, K_INC, K_RAW };
struct Tok { TK k; string text; bool quoted = false; int depth = 0; bool stmt_end = false; };
struct Gen {
    Ctx& c; vector<string> types; // index = registered id
    int nfiles = 0; bool longscript, deep = false; int budget; bool comments = true, includes = true, plain = false;
    vector<pair<string,string>> files;
    Gen(Ctx& c) : c(c) { longscript = c.chance(8); budget = longscript ? 60 : 14; if (c.draw(150) == 149) { longscript = true; budget = (int)c.range(100, 200); deep = c.coin(); c.label(deep ? "deep" : "wide"); }
        types.push_back("/root"); int n = (int)c.range(1, 4);
        for (int i = 0; i < n; i++) { string t; do { t = (c.coin() ? "@" : "T") + c.word(1, 6, "abcdefghij"); } while (find(types.begin(), types.end(), t) != types.end()); types.push_back(t); } }
    vector<string> pool; // words used so far: a new one is often a near miss of an old one
    string bare() { string w; do { if (!pool.empty() && c.chance(20)) { w = c.pick(pool); switch (c.draw(4)) { case 0: w += BARE[c.draw(60)]; break; case 1: if (w.size() > 1) w.pop_back(); break; case 2: w.back() = BARE[c.draw(60)]; break; default: { size_t i = c.draw(w.size()); if (isalpha((unsigned char)w[i])) w[i] ^= 0x20; } } } else w = c.chance(90) ? c.word(1, 8, BARE) : c.word(20, 120, BARE); if (c.chance(3)) w += (char)c.range(128, 255); } while (find(types.begin(), types.end(), w) != types.end()); pool.push_back(w); return w; }
    string value(bool& quoted) {
        uint64_t k = c.draw(10); quoted = false;
        if (k == 0) return to_string((int64_t)c.range(-100000, 100000));
        if (k == 1) return str(c.anyfinite());
        if (k == 2) return c.pickl<string>({"yes","no","true","FALSE"});
        if (k == 3) return types[c.draw(types.size())]; // a value may look like a block type
        if (k <= 6) return bare();
        quoted = true; string s; size_t n = c.draw(12); if (c.draw(100) == 99) { n = (size_t)c.range(200, 6000); uint64_t x = c.draw(1000000); for (size_t i = 0; i < n; i++) { x = x * 6364136223846793005ull + 1442695040888963407ull; s += "abc =;{}#<>,(0\n"[(x >> 40) % 15]; } c.label("very long string"); return s; } bool all = c.coin() && !plain;
        for (size_t i = 0; i < n; i++) { char ch = all ? (char)c.range(1, 255) : c.chance(40) && !plain ? "=(){};,#<> \n\t@\r"[c.draw(15)] : BARE[c.draw(60)]; if (ch == '"') ch = 'q'; s += ch; }
        return s;
    }
    void setting(MBlk& m, vector<Tok>& t, int depth, const string& name) {
        t.push_back({K_NAME, name, false, depth}); t.push_back({K_EQ, "=", false, depth});
        int n = c.chance(60) ? 1 : c.draw(100) == 99 ? (int)c.range(20, 150) : (int)c.range(2, 5); vector<string> vals;
        for (int i = 0; i < n; i++) { if (i && c.coin()) t.push_back({K_COMMA, ",", false, depth}); bool q; string v = value(q); vals.push_back(v); t.push_back({K_VAL, v, q, depth}); }
        t.push_back({K_SEMI, ";", false, depth, true});
        if (MSet *s = m.find(name)) s->v = vals; else { MSet s2; s2.name = name; s2.v = vals; m.set.push_back(s2); }
    }
    void statements(MBlk& m, vector<Tok>& t, int depth, int incdepth) {
        int n = deep ? (int)c.range(1, 3) : budget > 80 && depth == 0 ? 150 : (int)c.range(0, longscript ? 12 : 5);
        for (int i = 0; i < n && budget > 0; i++) {
            budget--; uint64_t k = deep && c.chance(60) ? 7 : c.draw(10);
            if (k <= 5) { string nm = (!m.set.empty() && c.chance(25)) ? m.set[c.draw(m.set.size())].name : bare(); if (m.find(nm)) c.label("override"); setting(m, t, depth, nm); }
            else if (k <= 8 && depth < (deep ? 40 : 5)) {
                size_t ty = (size_t)c.range(1, types.size() - 1); string nm; 
                if (!m.sub.empty() && c.chance(25)) { auto& b = m.sub[c.draw(m.sub.size())]; ty = b.type; nm = b.name; c.label("reopened"); } else nm = c.chance(10) ? types[c.draw(types.size())] : bare();
                t.push_back({K_BTYPE, types[ty], false, depth}); t.push_back({K_BNAME, nm, false, depth});
                string st; if (c.chance(40)) { st = bare(); t.push_back({K_LPAR, "(", false, depth}); t.push_back({K_STYPE, st, false, depth}); t.push_back({K_RPAR, ")", false, depth}); }
                t.push_back({K_LBR, "{", false, depth});
                MBlk *b = m.find(ty, nm); if (!b) { m.sub.push_back(MBlk()); b = &m.sub.back(); b->type = ty; b->name = nm; b->stype = st; }
                c.label("block"); if (depth) c.label("nested");
                statements(*b, t, depth + 1, incdepth); t.push_back({K_RBR, "}", false, depth + 1, true});
            } else if (includes && incdepth < 4) {
                vector<Tok> sub; statements(m, sub, 0, incdepth + 1); string fn = c.tmp((c.chance(15) ? c.pickl<string>({"in c", "in  c", "i#nc", "i\tc", "i=c,", "i\"{", "i;}("}) : "inc") + to_string(nfiles++) + ".cfg"); if (fn.find("inc") == string::npos) c.label("odd file name");
                files.push_back({fn, render(sub)}); t.push_back({K_INC, fn, false, depth, true}); c.label("include");
            }
        }
    }
    string ws(bool must, bool nl) { // white space, possibly with comments
        string o; int n = must ? (int)c.range(1, 3) : c.chance(60) ? (int)c.range(0, 2) : 0;
        for (int i = 0; i < n; i++) { uint64_t k = c.draw(20);
            if (k < 10) o += ' '; else if (k < 13) o += '\n'; else if (k < 15) o += '\t'; else if (k < 17) o += "\r\n";
            else if (comments && nl) { o += "#"; size_t l = c.draw(100) == 99 ? 400 : c.draw(20); for (size_t j = 0; j < l; j++) { char ch = c.coin() ? "=(){};,#<>\"@ abc"[c.draw(16)] : (char)c.range(1, 255); if (ch == '\n') ch = ' '; o += ch; } o += "\n"; c.label("comment"); }
            else o += ' '; }
        return o;
    }
    static bool wordy(const Tok& t) { return t.k == K_NAME || t.k == K_VAL || t.k == K_BTYPE || t.k == K_BNAME || t.k == K_STYPE || t.k == K_RAW; }
    string render(const vector<Tok>& t) {
        string o = ws(false, true);
        for (size_t i = 0; i < t.size(); i++) {
            if (t[i].k == K_INC) o += "<" + t[i].text + ">"; else if (t[i].quoted) o += "\"" + t[i].text + "\""; else o += t[i].text;
            bool must = i + 1 < t.size() && wordy(t[i]) && wordy(t[i+1]);
            o += ws(must, true);
        }
        if (comments && c.chance(10)) o += "# last comment" + string(c.coin() ? "" : "\n");
        return o;
    }
    void write_files() { for (auto& f : files) { ofstream os(f.first, ios::binary); os << f.second; } }
    void reg(Ctx& c, Configuration& cf) { for (size_t i = 1; i < types.size(); i++) { confblock_t id = cf.RegisterBlockType(types[i]); c.require(id == i, "block type id is " + to_string(id) + ", expected " + to_string(i)); } }
};
static void parse(Ctx& c, ConfigurationScript& cf, const string& text, int how) {
    Quiet q;
    if (how == 0) { ConfigBlock *r = cf.FromString(text); c.require(r == cf.GetRootBlock(), "FromString does not return the root block"); }
    else if (how == 1) { string fn = c.tmp("main.cfg"); { ofstream os(fn, ios::binary); os << text; } cf.FromFile(fn); c.require(cf.GetFilename() == fn, "file name is not kept"); }
    else { istringstream is(text); streambuf *o = cin.rdbuf(is.rdbuf()); cin.clear(); try { cf.FromStdin(); { ConfigurationScript e; e.FromStdin(); c.require(!e.HasError() && e.GetRootBlock()->GetAllSettings().empty() && !e.GetRootBlock()->HasSubBlocks(), "reading from an exhausted input gives settings"); delete e.GetRootBlock(); } } catch (...) { cin.rdbuf(o); cin.clear(); throw; } cin.rdbuf(o); cin.clear(); }
}
static MBlk mroot() { MBlk m; m.type = 0; m.name = "<root>"; return m; }

FACET("P05", parse_tree, 30000, "script has a setting and at least one block, include, comment, override or multi-valued setting") {
    Gen g(c); MBlk m = mroot(); vector<Tok> t; g.statements(m, t, 0, 0); string text = g.render(t);
    if (c.draw(60) == 59) { // a chain of files including each other, or many inclusions of the same file
        if (c.coin()) { int n = (int)c.range(4, 30); for (int i = 0; i < n; i++) { string fn = c.tmp("chain" + to_string(i) + ".cfg"); g.files.push_back({fn, text}); text = g.ws(false, true) + "<" + fn + ">" + g.ws(false, true); } c.label("include chain"); }
        else { string fn = c.tmp("often.cfg"); g.files.push_back({fn, g.ws(false, true)}); int n = (int)c.range(60, 140); string o; for (int i = 0; i < n; i++) o += "<" + fn + ">" + (c.draw(20) == 0 ? "\n" : ""); if (c.coin()) text = o + text; else { if (!text.empty() && text.back() != '\n') text += "\n"; text += o; } c.label("many includes"); } }
    g.write_files();
    int how = (int)c.draw(3); ConfigurationScript cf; g.reg(c, cf);
    for (size_t i = 0; i < g.types.size(); i++) { c.require(cf.IsBlockType(g.types[i]), "registered block type is unknown"); c.require(cf.StringToBlockType(g.types[i]) == i, "StringToBlockType is wrong"); }
    c.require(!cf.IsBlockType("unregistered"), "unregistered block type is known");
    c.note << "via " << (how==0?"string":how==1?"file":"stdin") << " " << str(text) << " files"; for (auto& f : g.files) c.note << " " << str(f.second); c.note << " expects " << show(m);
    bool again = c.chance(30), dirty = again && how != 1 && c.coin();
    if (dirty) { Quiet q; try { cf.FromString(c.pickl<string>({"a=\"unterminated", "b=1; <", "x=1;\n<nofile>", "}", "a 1;", "@ {"})); } catch (SOFTLibException&) {} c.label("after_bad_script"); }
    try { parse(c, cf, text, how); } catch (SOFTLibException& e) { c.fail("valid script was refused: " + e.whats()); }
    if (!dirty) c.require(!cf.HasError(), "valid script was flagged as erroneous");
    compare(c, m, cf.GetRootBlock(), nullptr, "", true);
    if (again) { ConfigBlock *first = cf.GetRootBlock(); { Quiet q; cf.FromString(text); } compare(c, m, cf.GetRootBlock(), nullptr, "(second parse)", true); compare(c, m, first, nullptr, "(first tree)", true); delete first; }
    if (how == 1) { bool thrown = false; try { Quiet q; cf.FromFile(c.tmp("main.cfg")); } catch (SOFTLibException&) { thrown = true; } c.require(thrown, "opening a second file with the same object was not refused"); }
    c.nontrivial(!t.empty() && (c.labels.size() || m.set.size() > 0) && t.size() > 5);
    delete cf.GetRootBlock();
}

// ---- layout independence: the same tokens, different layouts/routes, give the same tree
FACET("P05", layouts, 8000, "token list has more than 5 tokens") {
    Gen g(c); g.includes = false; MBlk m = mroot(); vector<Tok> t; g.statements(m, t, 0, 0);
    for (int i = 0; i < 3; i++) { string text = g.render(t); ConfigurationScript cf; g.reg(c, cf); c.note << "layout " << i << ": " << str(text) << "; ";
        try { parse(c, cf, text, i); } catch (SOFTLibException& e) { c.fail("valid script was refused: " + e.whats()); }
        c.require(!cf.HasError(), "valid script was flagged as erroneous"); compare(c, m, cf.GetRootBlock(), nullptr, "", false); delete cf.GetRootBlock(); }
    c.nontrivial(t.size() > 5);
}

static bool reported(Ctx& c, ConfigurationScript& cf, const string& text, int how) {
    try { parse(c, cf, text, how); } catch (SOFTLibException& e) { return true; }
      catch (exception& e) { c.fail(string("foreign exception escaped: ") + e.what()); }
    return cf.HasError();
}
FACET("P06", malformed, 30000, "one syntax error planted in a generated script of more than 5 tokens") {
    Gen g(c); uint64_t kind = c.draw(16); if (kind == 9 || kind == 13) { g.plain = true; g.comments = false; g.includes = false; }
    MBlk m = mroot(); vector<Tok> t; g.setting(m, t, 0, "first"); g.statements(m, t, 0, 0);
    auto idx = [&](TK k) { vector<size_t> v; for (size_t i = 0; i < t.size(); i++) if (t[i].k == k) v.push_back(i); if (v.empty()) c.discard(); return v[c.draw(v.size())]; };
    string what;
    switch (kind) {
        case 0: { size_t i = idx(K_EQ); what = "missing value"; size_t j = i + 1; while (t[j].k == K_VAL || t[j].k == K_COMMA) j++; t.erase(t.begin() + i + 1, t.begin() + j); } break;
        case 1: what = "missing '='"; t.erase(t.begin() + idx(K_EQ)); break;
        case 2: what = "missing ';'"; t.erase(t.begin() + idx(K_SEMI)); break;
        case 3: what = "missing '{'"; t.erase(t.begin() + idx(K_LBR)); break;
        case 4: what = "unterminated block"; t.erase(t.begin() + idx(K_RBR)); break;
        case 5: { what = "stray '}'"; vector<size_t> v{0}; for (size_t i = 0; i < t.size(); i++) if (t[i].stmt_end && (t[i].depth == 0 || (t[i].k == K_RBR && t[i].depth == 1))) v.push_back(i + 1); t.insert(t.begin() + c.pick(v), Tok{K_RBR, "}"}); } break;
        case 6: { what = "misplaced symbol"; string s = c.pickl<string>({"=", "(", ")", "{"}); size_t p = c.draw(t.size() + 1); t.insert(t.begin() + p, Tok{K_EQ, s}); what += " " + s; } break;
        case 7: { size_t i = idx(K_BTYPE); what = "unknown block type"; t[i].text = "unknown" + c.word(0, 3, "xyz"); } break;
        case 8: { what = "missing include file"; vector<size_t> v{0}; for (size_t i = 0; i < t.size(); i++) if (t[i].stmt_end || t[i].k == K_LBR) v.push_back(i + 1); t.insert(t.begin() + c.pick(v), Tok{K_INC, c.tmp("does-not-exist.cfg")}); } break;
        case 15: { what = "inclusion of a directory"; vector<size_t> v{0}; for (size_t i = 0; i < t.size(); i++) if (t[i].stmt_end || t[i].k == K_LBR) v.push_back(i + 1); t.insert(t.begin() + c.pick(v), Tok{K_INC, c.tmp("")}); } break;
        case 14: what = "null character"; break;
        case 9: { what = "unterminated string"; vector<size_t> v; for (size_t i = 0; i < t.size(); i++) if (t[i].quoted) v.push_back(i); if (v.empty()) c.discard(); size_t i = c.pick(v); t[i].quoted = false; t[i].text = "\"" + t[i].text; } break;
        case 10: { what = "truncated"; size_t p = 1 + c.draw(t.size()); t.resize(p); if (t.back().k == K_INC || (t.back().stmt_end && (t.back().k == K_RBR ? t.back().depth == 1 : t.back().depth == 0))) c.discard(); } break;
        case 13: { what = "stray quotation mark"; vector<size_t> v{0}; for (size_t i = 0; i < t.size(); i++) if (t[i].stmt_end && (t[i].depth == 0 || (t[i].k == K_RBR && t[i].depth == 1))) v.push_back(i + 1); for (auto& k : t) if (k.quoted) { k.quoted = false; if (k.text.empty()) k.text = "v"; } if (c.coin()) t.push_back(Tok{K_RAW, "\""}); else t.insert(t.begin() + c.pick(v), Tok{K_RAW, "\""}); } break;
        case 11: { what = "missing name in block"; t.erase(t.begin() + idx(K_BNAME)); } break;
        case 12: { what = "self-including file"; vector<size_t> v{0}; for (size_t i = 0; i < t.size(); i++) if (t[i].stmt_end) v.push_back(i + 1); t.insert(t.begin() + c.pick(v), Tok{K_INC, c.tmp("loop.cfg")}); string inc = c.coin() ? "<" + c.tmp("loop.cfg") + ">" : "a=1; <" + c.tmp("loop2.cfg") + ">"; g.files.push_back({c.tmp("loop.cfg"), inc}); g.files.push_back({c.tmp("loop2.cfg"), "<" + c.tmp("loop.cfg") + "> b=2;"}); } break;
    }
    string text;
    bool in_include = kind != 12 && c.chance(20);
    text = g.render(t); if (kind == 14) text.insert(text.begin() + c.draw(text.size()), '\0');
    if (in_include && kind != 4 && kind != 5 && kind != 9 && kind != 13 && kind != 10 && kind != 2) { string fn = c.tmp("outer.cfg"); g.files.push_back({fn, text}); text = "x=1;\n<" + fn + ">\ny=2;"; c.label("in_include"); }
    g.write_files(); int how = (int)c.draw(3); ConfigurationScript cf; g.reg(c, cf); c.label(what.substr(0, 16));
    c.note << what << " via " << how << ": " << str(text); for (auto& f : g.files) c.note << " file " << str(f.second);
    c.require(reported(c, cf, text, how), what + " was not reported");
    if (kind == 15 && c.coin()) { ConfigurationScript cd; bool thrown = false; try { cd.FromFile(c.tmp("")); } catch (SOFTLibException&) { thrown = true; } c.require(thrown || cd.HasError(), "reading a directory as a configuration was not reported"); }
    // the reader is usable afterwards
    ConfigurationScript c2; parse(c, c2, "a=1;", 0); c.require(!c2.HasError() && c2.GetRootBlock()->HasSetting("a"), "a later script is not read");
    c.nontrivial(t.size() > 5);
}
// ---------------------------------------------------------------- P25
// The place named by the first reported error is the one of the offending token.
struct Grab { ostringstream s; streambuf *e, *o; NullBuf nb; Grab() { e = cerr.rdbuf(s.rdbuf()); o = cout.rdbuf(&nb); } ~Grab() { cerr.rdbuf(e); cout.rdbuf(o); } };
FACET("P25", error_place, 30000, "the offending token is not on the first line of its file") {
    Gen g(c); MBlk m = mroot(); vector<Tok> t; g.setting(m, t, 0, "first"); g.statements(m, t, 0, 0); uint64_t kind = c.draw(10); string what; size_t at = 0; bool eof = false, after_name = false;
    auto idx = [&](TK k) { vector<size_t> v; for (size_t i = 0; i < t.size(); i++) if (t[i].k == k) v.push_back(i); if (v.empty()) c.discard(); return v[c.draw(v.size())]; };
    auto start = [&](bool root) { vector<size_t> v{0}; for (size_t i = 0; i < t.size(); i++) if (root ? (t[i].stmt_end && (t[i].k == K_RBR ? t[i].depth == 1 : t[i].depth == 0)) : (t[i].stmt_end || t[i].k == K_LBR)) v.push_back(i + 1); return c.pick(v); };
    switch (kind) {
        case 0: { what = "missing value"; size_t i = idx(K_EQ), j = i + 1; while (t[j].k == K_VAL || t[j].k == K_COMMA) j++; t.erase(t.begin() + i + 1, t.begin() + j); at = i + 1; } break;
        case 1: { what = "missing '='"; size_t i = idx(K_EQ); t.erase(t.begin() + i); at = i; } break;
        case 2: { what = "missing ';'"; size_t i = idx(K_SEMI); t.erase(t.begin() + i); while (i < t.size() && (Gen::wordy(t[i]) || t[i].k == K_COMMA)) i++; if (i < t.size() && t[i].k == K_INC) c.discard(); at = i; } break;
        case 3: { what = "missing '{'"; size_t i = idx(K_LBR); t.erase(t.begin() + i); if (i < t.size() && t[i].k == K_INC) c.discard(); at = i; } break;
        case 4: { what = "stray '}'"; at = start(true); t.insert(t.begin() + at, Tok{K_RBR, "}"}); } break;
        case 5: { what = "misplaced symbol"; at = start(false); t.insert(t.begin() + at, Tok{K_EQ, c.pickl<string>({"=", "(", ")", "{", ";"})}); } break;
        case 6: { what = "unknown block type"; size_t i = idx(K_BTYPE); t[i].text = "unknown" + c.word(0, 3, "xyz"); at = i + 1; } break;
        case 7: { what = "missing include file"; at = start(false); t.insert(t.begin() + at, Tok{K_INC, c.tmp("does-not-exist.cfg")}); } break;
        case 9: { what = "null character"; at = start(false); t.insert(t.begin() + at, Tok{K_EQ, string("\0;", 2)}); } break;
        default: { what = "unterminated block"; t.erase(t.begin() + idx(K_RBR)); at = t.size(); } }
    (void)after_name; bool inc = kind != 8 && c.chance(30); if (at >= t.size()) { eof = true; at = t.size(); if (inc) inc = false; }
    // render, remembering the line on which each token starts
    string text = g.ws(false, true); size_t line = 0; auto lines = [](const string& s) { return 1 + (size_t)count(s.begin(), s.end(), '\n'); };
    for (size_t i = 0; i < t.size(); i++) { if (i == at) line = lines(text); if (t[i].k == K_INC) text += "<" + t[i].text + ">"; else if (t[i].quoted) text += "\"" + t[i].text + "\""; else text += t[i].text; text += g.ws(i + 1 < t.size() && Gen::wordy(t[i]) && Gen::wordy(t[i+1]), true); }
    if (eof) line = lines(text); int how = (int)c.draw(4); string file = how == 0 ? "<unknown>" : how == 1 ? c.tmp("main.cfg") : how == 2 ? "stdin" : "given name", wrapped = text;
    if (inc) { string fn = c.tmp("outer.cfg"); g.files.push_back({fn, text}); file = fn; string pad; for (int k = (int)c.draw(4); k > 0; k--) pad += c.coin() ? "\n" : "w = 1;\n"; wrapped = pad + "<" + fn + ">" + (c.coin() ? "\ny=2;" : ""); c.label("in include"); }
    g.write_files(); ConfigurationScript cf; g.reg(c, cf); c.label(what); c.note << what << " via " << how << ": " << str(text); for (auto& f : g.files) c.note << " file " << str(f.second); c.note << " expected at " << file << " line " << line; string msg; size_t exl = 0; bool ex = false;
    { Grab q; try { if (how == 3) cf.FromString(wrapped, file == "given name" ? file : "other"); else if (how == 0) cf.FromString(wrapped); else if (how == 1) { string fn = c.tmp("main.cfg"); { ofstream os(fn, ios::binary); os << wrapped; } cf.FromFile(fn); } else { istringstream is(wrapped); streambuf *o = cin.rdbuf(is.rdbuf()); cin.clear(); try { cf.FromStdin(); } catch (...) { cin.rdbuf(o); cin.clear(); throw; } cin.rdbuf(o); cin.clear(); } } catch (ConfigurationException& e) { msg = e.whats(); exl = e.GetLine(); ex = true; } catch (SOFTLibException& e) { msg = e.whats(); }
      string s = q.s.str(); if (!s.empty()) { msg = s; ex = false; } }
    c.require(!msg.empty(), what + " was not reported"); if (ex) c.require(exl == line, what + " is reported at line " + to_string(exl) + ", but stands on line " + to_string(line)); string first = msg.substr(0, msg.find('\n'));
    c.require(first.find(file + ":" + to_string(line) + ":") != string::npos, what + " of " + file + " line " + to_string(line) + " is reported as: " + first); c.nontrivial(line > 1);
}
FACET("P06", soup, 40000, "input has a symbol and at least 5 tokens/bytes; must end without crash, hang or foreign exception") {
    string text; uint64_t mode = c.draw(3); ConfigurationScript cf; cf.RegisterBlockType("@b"); cf.RegisterBlockType("block");
    { ofstream os(c.tmp("ok.cfg")); os << "z=1;"; } { ofstream os(c.tmp("open.cfg")); os << "z=\"un"; } { ofstream os(c.tmp("inc.cfg")); os << "z=1 <"; }
    if (mode == 0) { size_t n = c.chance(5) ? (size_t)c.range(900, 2200) : (size_t)c.range(0, 60); for (size_t i = 0; i < n; i++) { char ch = (char)c.draw(256); text += ch == '/' ? 'x' : ch; } }
    else if (mode == 1) { size_t n = c.range(0, 40); for (size_t i = 0; i < n; i++) { static const vector<string> T = {"a","=","1",";","{","}","(",")","\"","@b","block","name","#","\n"," ",",","<",">","=1;","@b n {","\r","<>"};
            uint64_t k = c.draw(T.size() + 1); text += k < T.size() ? T[k] : "<" + c.tmp(c.pickl<string>({"ok.cfg","open.cfg","inc.cfg","nope.cfg"})) + ">"; if (c.chance(60)) text += ' '; } }
    else { Gen g(c); g.types = {"/root","@b","block"}; g.includes = false; MBlk m = mroot(); vector<Tok> t; g.statements(m, t, 0, 0); text = g.render(t);
        int n = (int)c.range(1, 6); for (int i = 0; i < n && !text.empty(); i++) { size_t p = c.draw(text.size()); switch (c.draw(4)) { case 0: text.erase(p, 1 + c.draw(3)); break; case 1: text.insert(p, 1, "=(){};,#<>\"\n"[c.draw(12)]); break; case 2: text[p] = (char)c.range(1, 255); break; default: text.resize(p); } } 
        for (char& ch : text) if (ch == '/') ch = '_'; }
    int how = (int)c.draw(3); c.note << "via " << how << " " << str(text);
    bool r = reported(c, cf, text, how); c.label(r ? "reported" : "accepted");
    if (!r) { // whatever was accepted is a well-formed tree
        function<void(ConfigBlock*, ConfigBlock*)> walk = [&](ConfigBlock *b, ConfigBlock *p) { c.require(b->GetParent() == p, "block has a wrong parent"); for (Setting *s : b->GetAllSettings()) c.require(s->GetNumberOfValues() >= 1, "setting without value"); for (ConfigBlock *x : b->GetAllSubBlocks()) { c.require(x->GetType() >= 1 && x->GetType() <= 2, "block with unknown type"); walk(x, b); } };
        walk(cf.GetRootBlock(), nullptr);
    }
    c.nontrivial(text.size() >= 5 && text.find_first_of("=(){};,#<>\"") != string::npos);
}

// ---------------------------------------------------------------- P07
static void untouch(MBlk& m) { for (auto& s : m.set) s.touched = false; for (auto& b : m.sub) untouch(b); }
static void mmerge(MBlk& a, const MBlk& b, bool allow, vector<string>& unk) {
    for (auto& s : b.set) { if (MSet *t = a.find(s.name)) t->v = s.v; else if (allow) { MSet n = s; n.touched = false; a.set.push_back(n); } else unk.push_back(s.name); }
    for (auto& x : b.sub) { if (MBlk *t = a.find(x.type, x.name)) mmerge(*t, x, allow, unk); else if (allow) { MBlk n = x; untouch(n); a.sub.push_back(n); } else unk.push_back(x.name); }
}
FACET("P07", histories, 25000, "history with at least one copy or merge followed by further changes or destruction") {
    static const vector<string> NM = {"a", "b", "c", "time", "Time", "time2", "a_rather_long_setting_name_number_1", "a_rather_long_setting_name_number_2"}, BN = {"p", "q", "P", "pq", "a_rather_long_block_name_number_1", "a_rather_long_block_name_number_2"};
    struct Tree { MBlk m; ConfigBlock *b; ConfigurationScript *cf; };
    vector<Tree> T; auto nt = [&]() { MBlk m = mroot(); ConfigurationScript *cf = nullptr; ConfigBlock *b; if (c.coin()) { cf = new ConfigurationScript(); cf->RegisterBlockType("t1"); cf->RegisterBlockType("t2"); b = cf->GetRootBlock(); } else b = new ConfigBlock(0, "<root>"); T.push_back({m, b, cf}); };
    auto kill = [&](size_t i) { if (T[i].cf) delete T[i].cf; delete T[i].b; T.erase(T.begin() + i); };
    nt(); int ops = (int)c.range(3, 25); bool derived = false, after = false;
    for (int k = 0; k < ops; k++) {
        if (T.empty()) nt();
        size_t i = c.draw(T.size()); MBlk *m = &T[i].m; ConfigBlock *b = T[i].b;
        // walk to a random sub-block
        string where = "t" + to_string(i); while (!m->sub.empty() && c.coin()) { size_t s = c.draw(m->sub.size()); MBlk *x = &m->sub[s]; ConfigBlock *y = b->GetConfigBlock(x->type, x->name); c.require(y != nullptr, where + ": existing sub-block was not found"); where += "/" + x->name; m = x; b = y; }
        uint64_t op = c.draw(14);
        if (op <= 3) { string n = c.pick(NM); vector<string> v; int nv = (int)c.range(1, 3); for (int j = 0; j < nv; j++) v.push_back(c.word(0, 5, "abc0123 "));
            c.note << where << " set " << n << "=" << v.size() << "; "; Setting *s = v.size() == 1 && c.coin() ? new SettingScript(n, v[0]) : new SettingScript(n, v); Setting *r = b->AddSetting(s); c.require(r && r->GetName() == n, "AddSetting returns the wrong setting");
            if (MSet *t = m->find(n)) t->v = v; else { MSet t2; t2.name = n; t2.v = v; m->set.push_back(t2); } after |= derived; }
        else if (op <= 5) { size_t ty = 1 + c.draw(2); string n = c.pick(BN), st = c.coin() ? "" : c.word(1, 3, "STU"); bool dup = m->find(ty, n); bool byptr = !dup && c.coin();
            c.note << where << " block " << ty << ":" << n << (byptr ? "(ptr)" : "") << "; "; ConfigBlock *r = byptr ? b->AddSubBlock(new ConfigBlock(ty, n, st)) : b->AddSubBlock(ty, n, st); c.require(r && r->GetName() == n && r->GetType() == ty, "AddSubBlock returns the wrong block");
            if (!dup) { MBlk x; x.type = ty; x.name = n; x.stype = st; m->sub.push_back(x); } after |= derived; }
        else if (op == 6 && T.size() < 6) { // copy (sub)tree
            MBlk cp = *m; untouch(cp); if (m == &T[i].m && T[i].cf && c.coin()) { c.note << "copy config " << where << "; "; ConfigurationScript *n = new ConfigurationScript(*T[i].cf); c.require(n->GetBlockTypes() == T[i].cf->GetBlockTypes() && n->HasError() == T[i].cf->HasError() && n->GetFilename() == T[i].cf->GetFilename(), "copied configuration differs"); T.push_back({cp, n->GetRootBlock(), n}); }
            else { c.note << "copy " << where << "; "; T.push_back({cp, new ConfigBlock(b), nullptr}); c.require(*T.back().b == *b, "copied block does not compare equal to the original"); } derived = true; c.label("copy"); }
        else if (op == 7 || op == 8) { size_t j = c.draw(T.size()); if (j == i) continue; bool allow = c.coin(); vector<string> unk; mmerge(*m, T[j].m, allow, unk);
            c.note << "merge t" << j << " into " << where << (allow ? " (new)" : "") << "; "; vector<string> *u;
            if (m == &T[i].m && T[i].cf && T[j].cf) u = T[i].cf->Merge(*T[j].cf, allow); else u = b->Merge(T[j].b, allow);
            if (unk.empty()) c.require(u == nullptr, "merge reports unknown settings although there are none"); else { c.require(u != nullptr, "merge does not report unknown settings"); vector<string> a = *u, e = unk; sort(a.begin(), a.end()); sort(e.begin(), e.end()); c.require(a == e, "merge reports the wrong unknown settings: " + strv(*u) + " expected " + strv(unk)); }
            delete u; derived = true; c.label(allow ? "merge_new" : "merge_strict"); }
        else if (op == 9) { string n = c.pick(NM); MSet *t = m->find(n); bool how = c.coin(); c.note << where << " read " << n << "; "; Setting *s = how ? b->GetSetting(n) : b->GetSetting(n.c_str()); c.require((s != nullptr) == (t != nullptr), "GetSetting finds the wrong settings"); if (t) { c.require(s->GetName() == n && s->GetTextVector() == t->v, "GetSetting returns a wrong setting"); t->touched = true; c.label("touch"); } }
        else if (op == 10) { string n = c.pick(NM); MSet *t = m->find(n); c.require(b->HasSetting(n) == (t != nullptr), "HasSetting is wrong"); c.note << where << " [" << n << "]; "; bool thrown = false; string v; try { v = (*b)[n]; } catch (SOFTLibException&) { thrown = true; } c.require(thrown == (t == nullptr), "operator[] of a missing setting"); if (t) { c.require(v == t->v[0], "operator[] returns the wrong value"); t->touched = true; } }
        else if (op == 11) { size_t ty = c.draw(3); string n = c.pick(BN); MBlk *x = m->find(ty, n); ConfigBlock *y = b->GetConfigBlock(ty, n); c.require((x != nullptr) == (y != nullptr) && b->HasSubBlock(ty, n) == (x != nullptr), "look-up of a sub-block by type and name is wrong"); if (x) compare(c, *x, y, b, "lookup", true);
            vector<ConfigBlock*> l = b->GetAllSubBlocksOfType(ty); vector<MBlk*> e; for (auto& s : m->sub) if (s.type == ty) e.push_back(&s); c.require(l.size() == e.size() && b->HasSubBlocks(ty) == !e.empty(), "look-up by type returns the wrong number of blocks"); for (size_t q = 0; q < l.size(); q++) compare(c, *e[q], l[q], b, "bytype", true);
            c.require(b->HasType(m->type) && b->HasTypeAndName(m->type, m->name) && !b->HasTypeAndName(m->type, m->name + "x") && !b->HasType(m->type + 1), "HasType is wrong"); }
        else if (op == 12 && T.size() > 1) { c.note << "destroy t" << i << "; "; kill(i); after |= derived; c.label("destroy"); }
        else { vector<Setting*> u = b->GetUntouchedSettings(); vector<string> a, e; for (auto *s : u) a.push_back(s->GetName()); for (auto& s : m->set) if (!s.touched) e.push_back(s.name); c.require(a == e, "untouched settings are " + strv(a) + ", expected " + strv(e)); c.require(b->HasUntouchedSettings() == !e.empty(), "HasUntouchedSettings is wrong"); }
        for (size_t j = 0; j < T.size(); j++) compare(c, T[j].m, T[j].b, nullptr, "t" + to_string(j), true);
    }
    while (!T.empty()) { kill(c.draw(T.size())); for (size_t j = 0; j < T.size(); j++) compare(c, T[j].m, T[j].b, nullptr, "end", true); }
    c.nontrivial(derived && after);
}
// merging two parsed scripts = parsing with later assignments winning
FACET("P07", merge_scripts, 6000, "both scripts have statements") {
    Gen g(c); g.includes = false; MBlk m1 = mroot(), m2 = mroot(); vector<Tok> t1, t2; g.statements(m1, t1, 0, 0); g.budget += 8;
    // the second script re-uses part of the first one's structure
    MBlk seed = m1; for (auto& s : seed.set) if (c.coin()) g.setting(m2, t2, 0, s.name);
    for (auto& b : seed.sub) if (c.coin()) { t2.push_back({K_BTYPE, g.types[b.type]}); t2.push_back({K_BNAME, b.name}); t2.push_back({K_LBR, "{"}); MBlk x; x.type = b.type; x.name = b.name; m2.sub.push_back(x); for (auto& s : b.set) if (c.coin()) g.setting(m2.sub.back(), t2, 1, s.name); t2.push_back({K_RBR, "}"}); }
    g.statements(m2, t2, 0, 0); string s1 = g.render(t1), s2 = g.render(t2); c.note << str(s1) << " + " << str(s2);
    ConfigurationScript a, b; g.reg(c, a); g.reg(c, b); parse(c, a, s1, 0); parse(c, b, s2, 0); c.require(!a.HasError() && !b.HasError(), "valid script flagged");
    bool allow = c.coin(); vector<string> unk; MBlk m = m1; mmerge(m, m2, allow, unk); vector<string> *u = a.Merge(b, allow);
    c.require((u == nullptr) == unk.empty(), "merge reports unknown settings wrongly"); if (u) { vector<string> x = *u; sort(x.begin(), x.end()); sort(unk.begin(), unk.end()); c.require(x == unk, "merge reports the wrong unknown settings"); } delete u;
    compare(c, m, a.GetRootBlock(), nullptr, "merged", true); compare(c, m2, b.GetRootBlock(), nullptr, "merged-in", true); delete b.GetRootBlock(); compare(c, m, a.GetRootBlock(), nullptr, "merged", true); delete a.GetRootBlock();
    c.nontrivial(!t1.empty() && !t2.empty());
}
FACET("P07", block_types, 2000, "more than two types") {
    ConfigurationScript cf; vector<string> reg = {"/root"}; int n = (int)c.range(1, 12);
    for (int i = 0; i < n; i++) { string t = c.word(1, 2, "@ab"); bool known = find(reg.begin(), reg.end(), t) != reg.end(), thrown = false; c.note << t << " "; c.require(cf.IsBlockType(t) == known, "IsBlockType is wrong"); size_t id = 0; try { id = cf.RegisterBlockType(t); } catch (SOFTLibException&) { thrown = true; } c.require(thrown == known, "registering a block type twice"); if (!known) { c.require(id == reg.size(), "wrong id"); reg.push_back(t); } }
    for (size_t i = 0; i < reg.size(); i++) c.require(cf.StringToBlockType(reg[i]) == i, "StringToBlockType is wrong"); c.require(cf.GetBlockTypes() == reg, "GetBlockTypes is wrong"); c.nontrivial(reg.size() > 2);
    delete cf.GetRootBlock();
}

// ---------------------------------------------------------------- P08
struct Text { string s; bool isint = false; __int128 iv = 0; int num = 0; /*0 no,1 yes,2 no claim*/ double dv = 0; int boolv = -1; bool uclaim = true; };
static string i128(__int128 v) { if (v == 0) return "0"; bool n = v < 0; string o; unsigned __int128 u = n ? -(unsigned __int128)v : v; while (u) { o += (char)('0' + (int)(u % 10)); u /= 10; } if (n) o += '-'; reverse(o.begin(), o.end()); return o; }
static double decimal(const string& s) { return strtod(s.c_str(), nullptr); }
static Text gen_text(Ctx& c) {
    Text t; uint64_t k = c.draw(12);
    auto mkint = [&](__int128 v) { t.isint = true; t.iv = v; t.s = i128(v); t.num = 1; };
    if (k <= 1) mkint(c.range(-1000, 1000));
    else if (k <= 3) { static const vector<__int128> B = {((__int128)1)<<31, ((__int128)1)<<32, ((__int128)1)<<63, ((__int128)1)<<64, 0, ((__int128)1)<<15, ((__int128)1)<<53}; __int128 v = c.pick(B) + c.range(-2, 2); if (c.coin()) v = -v; mkint(v); }
    else if (k == 4) { uint64_t u = c.anyu64(); __int128 v = (__int128)u * (c.chance(20) ? c.range(1, 50) : 1); if (c.coin()) v = -v; mkint(v); }
    else if (k == 5) { double d = c.anyfinite(); char b[64]; const char *f = c.pickl<const char*>({"%.17g", "%.17e", "%.20g"}); if (d != 0 && fabs(d) < 2.3e-308) d = 1.5; snprintf(b, sizeof b, f, d); t.s = b; t.num = 1; if (t.s.find_first_of(".eE") == string::npos) t.s += ".0"; t.dv = d; return t; }
    else if (k == 6) { string s; if (c.chance(30)) s += c.coin() ? '-' : '+'; string a = c.word(0, 6, "0123456789"), b = c.word(0, 8, "0123456789"); if (a.empty() && b.empty()) a = "3"; s += a; s += "." + b; if (c.coin()) s += string(1, "eE"[c.draw(2)]) + c.pickl<string>({"", "+", "-"}) + to_string(c.draw(200)); t.s = s; t.num = 1; t.dv = decimal(s); return t; }
    else if (k == 7) { int b = (int)c.draw(12); static const char *B[] = {"yes","Yes","YES","true","True","TRUE","no","No","NO","false","False","FALSE"}; t.s = B[b]; t.boolv = b < 6; return t; }
    else if (k == 8) { t.s = c.pickl<string>({"yEs","tRUE","y","1 ","truex","yes no","on","NOO","f","0x","e5",".","+","-","1e","1e+","..1","1.2.3","1,2","--5","5-","+-3","12abc","1_000","1.5e3.2","","abc","1e999","-1e400","1e5x","3 4"}); t.num = 0; 
        if (t.s == "0x" || t.s == "0x10") t.num = 0; return t; }
    else if (k == 9) { t.s = c.pickl<string>({"1e3", "-2e2", "5e0", "1E10"}); t.num = 1; t.dv = decimal(t.s); return t; }
    else if (k == 10) { __int128 v = c.range(-99999, 99999); mkint(v); t.s += c.pickl<string>({"x", " ", "e", ".", "L", "-", "f", ",", "%", " 1"}); t.isint = false; if (t.s.back() == '.') { t.num = 1; t.dv = (double)v; } else t.num = 0; return t; }
    else { t.s = c.word(1, 6, "abcdgjkmz_ /"); if (t.s[0] == ' ') t.s[0] = 'q'; return t; }
    if (t.isint) { if (t.iv >= 0 && c.chance(15)) t.s = "+" + t.s; else if (c.chance(10)) { bool n = t.s[0] == '-'; t.s = (n ? "-" : "") + string("000") + t.s.substr(n); } if (t.s[0] == '-' && t.iv == 0) t.uclaim = false; t.dv = decimal(t.s); }
    return t;
}
template<class F> static bool libthrows(Ctx& c, const string& what, F f) { try { f(); } catch (SOFTLibException&) { return true; } catch (exception& e) { c.fail(what + " let a foreign exception escape: " + e.what()); } return false; }
template<class T, class F> static void typed(Ctx& c, const string& what, bool pred, bool want, __int128 val, F get) {
    c.require(pred == want, what + ": predicate says " + (pred ? "yes" : "no") + ", the value " + (want ? "fits" : "does not fit"));
    if (want) { T v = 0; if (libthrows(c, what, [&]{ v = get(); })) c.fail(what + ": reading a fitting value was refused"); c.require((__int128)v == val, what + ": read " + i128(v) + ", expected " + i128(val)); }
    else { T v = 0; if (!libthrows(c, what, [&]{ v = get(); })) c.fail(what + ": reading a value that does not fit returned " + i128(v) + " instead of being refused"); }
}
#define LIM(T) numeric_limits<T>::min() <= iv && iv <= (__int128)numeric_limits<T>::max()
static void check_ints(Ctx& c, const string& w, Setting& s, unsigned i, size_t n, bool isint, __int128 iv, bool uclaim) {
    bool one = n == 1 && i == 0;
    typed<int64_t>(c, w + " IsInteger", s.IsInteger(i), isint && LIM(int64_t), iv, [&]{ return s.GetInteger(i); });
    typed<int64_t>(c, w + " IsInteger64", s.IsInteger64(i), isint && LIM(int64_t), iv, [&]{ return s.GetInteger64(i); });
    typed<int32_t>(c, w + " IsInteger32", s.IsInteger32(i), isint && LIM(int32_t), iv, [&]{ return s.GetInteger32(i); });
    if (uclaim) { typed<uint64_t>(c, w + " IsUnsignedInteger64", s.IsUnsignedInteger64(i), isint && LIM(uint64_t), iv, [&]{ return s.GetUnsignedInteger64(i); });
        typed<uint32_t>(c, w + " IsUnsignedInteger32", s.IsUnsignedInteger32(i), isint && LIM(uint32_t), iv, [&]{ return s.GetUnsignedInteger32(i); }); }
    if (i == 0) { c.require(s.IsInteger() == (one && isint && LIM(int64_t)), w + " IsInteger()"); c.require(s.IsInteger64() == (one && isint && LIM(int64_t)), w + " IsInteger64()"); c.require(s.IsInteger32() == (one && isint && LIM(int32_t)), w + " IsInteger32()");
        if (uclaim) { c.require(s.IsUnsignedInteger64() == (one && isint && LIM(uint64_t)), w + " IsUnsignedInteger64()"); c.require(s.IsUnsignedInteger32() == (one && isint && LIM(uint32_t)), w + " IsUnsignedInteger32()"); }
        // default argument of the readers is the first value
        if (isint && LIM(int64_t)) c.require(s.GetInteger() == (int64_t)iv && s.GetInteger64() == (int64_t)iv, w + " GetInteger()"); }
}
static void check_script(Ctx& c, Setting& s, const vector<Text>& T, const string& tag) {
    c.require(s.GetNumberOfValues() == T.size(), tag + " number of values");
    bool allnum = true, nclaim = true;
    for (size_t i = 0; i < T.size(); i++) {
        const Text& t = T[i]; string w = tag + " value " + str(t.s); bool one = T.size() == 1;
        c.require(s.GetString(i) == t.s, w + ": GetString gives " + str(s.GetString(i)));
        check_ints(c, w, s, i, T.size(), t.isint, t.iv, t.uclaim);
        c.require(s.IsBool(i) == (t.boolv >= 0), w + ": IsBool is wrong"); if (i == 0) c.require(s.IsBool() == (one && t.boolv >= 0), w + ": IsBool() is wrong");
        if (t.boolv >= 0) c.require(s.GetBool(i) == (t.boolv == 1), w + ": GetBool is wrong"); else c.require(libthrows(c, w, [&]{ s.GetBool(i); }), w + ": GetBool of a non-boolean was not refused");
        if (t.num == 2) nclaim = false; else { c.require(s.IsScalar(i) == (t.num == 1), w + ": IsScalar says " + (s.IsScalar(i) ? "yes" : "no")); if (i == 0) c.require(s.IsScalar() == (one && t.num == 1), w + ": IsScalar() is wrong");
            if (t.num == 1) c.same(s.GetScalar(i), t.dv, w + ": GetScalar"); else c.require(libthrows(c, w, [&]{ s.GetScalar(i); }), w + ": GetScalar of text was not refused"); }
        allnum &= t.num == 1;
    }
    if (nclaim) { c.require(s.IsNumericVector() == allnum, tag + " IsNumericVector is wrong"); c.require(s.IsNumericVector(T.size()) == allnum && !s.IsNumericVector(T.size() + 1) && !s.IsNumericVector(T.size() - 1), tag + " IsNumericVector(n) is wrong");
        if (allnum) { vector<slibreal_t> v = s.GetNumericVector(); c.require(v.size() == T.size(), tag + " GetNumericVector size"); for (size_t i = 0; i < v.size(); i++) c.same(v[i], T[i].dv, tag + " GetNumericVector"); }
        else c.require(libthrows(c, tag, [&]{ s.GetNumericVector(); }), tag + " GetNumericVector of text was not refused"); }
    vector<string> tv = s.GetTextVector(); for (size_t i = 0; i < T.size(); i++) c.require(tv.at(i) == T[i].s, tag + " GetTextVector");
}
FACET("P08", script_values, 40000, "value is numeric-looking, boolean or a near miss; or several values") {
    int n = c.chance(60) ? 1 : (int)c.range(2, 5); vector<Text> T; vector<string> v; for (int i = 0; i < n; i++) { T.push_back(gen_text(c)); v.push_back(T.back().s); c.note << str(v.back()) << " "; }
    unique_ptr<SettingScript> s; uint64_t how = c.draw(3);
    if (how == 0) s.reset(new SettingScript("name", v)); else { s.reset(new SettingScript("name", v[0])); for (int i = 1; i < n; i++) s->AppendValue(v[i]); }
    c.require(s->HasName("name") && !s->HasName("nam") && s->GetName() == "name", "setting name");
    check_script(c, *s, T, "setting"); unique_ptr<Setting> cp(s->Copy()); check_script(c, *cp, T, "copy"); c.require(cp->GetName() == "name", "name of copy");
    if (how == 2) { string text = "name ="; for (auto& x : v) text += " \"" + x + "\""; ConfigurationScript cf; parse(c, cf, text + ";", 0); Setting *p = cf.GetRootBlock()->GetSetting("name"); c.require(p != nullptr, "parsed setting is missing"); check_script(c, *p, T, "parsed"); delete cf.GetRootBlock(); }
    SettingScript o("other", "zzz"); o.OverwriteValues(s.get()); check_script(c, o, T, "overwritten"); c.require(o.GetName() == "other", "overwriting changed the name"); check_script(c, *s, T, "source of overwrite");
    SettingScript k(s.get()); s.reset(); check_script(c, k, T, "copy-constructed");
    bool nt = n > 1; for (auto& t : T) nt |= t.num || t.boolv >= 0 || t.s.find_first_of("0123456789") != string::npos; c.nontrivial(nt);
}
struct Nat { int ty; vector<bool> b; vector<__int128> iv; vector<double> r; vector<string> s; size_t n; };
static Nat gen_nat(Ctx& c) {
    Nat x; x.ty = (int)c.draw(7); x.n = c.chance(50) ? 1 : (size_t)c.range(1, 5);
    for (size_t i = 0; i < x.n; i++) { uint64_t u = c.anyu64(); switch (x.ty) {
        case 0: x.b.push_back(c.coin()); break;
        case 1: x.iv.push_back((int32_t)u); break; case 2: x.iv.push_back((int64_t)u); break; case 3: x.iv.push_back((uint32_t)u); break; case 4: x.iv.push_back(u); break;
        case 5: { double d = c.chance(30) ? (double)c.range(-100000, 100000) : c.chance(30) ? ldexp(c.coin() ? 1 : -1, (int)c.range(28, 66)) + (double)c.range(-2, 2) : c.chance(10) ? (c.coin() ? NAN : INFINITY) : c.anyfinite(); if (d == 0) d = 0; x.r.push_back(d); } break;
        case 6: x.s.push_back(gen_text(c).s); break; } }
    return x;
}
static SettingSFile *make(const Nat& x) { switch (x.ty) {
    case 0: return new SettingSFile(new vector<bool>(x.b)); case 1: { auto *v = new vector<int32_t>; for (auto i : x.iv) v->push_back((int32_t)i); return new SettingSFile(v); }
    case 2: { auto *v = new vector<int64_t>; for (auto i : x.iv) v->push_back((int64_t)i); return new SettingSFile(v); } case 3: { auto *v = new vector<uint32_t>; for (auto i : x.iv) v->push_back((uint32_t)i); return new SettingSFile(v); }
    case 4: { auto *v = new vector<uint64_t>; for (auto i : x.iv) v->push_back((uint64_t)i); return new SettingSFile(v); } case 5: return new SettingSFile(new vector<slibreal_t>(x.r)); default: return new SettingSFile(new vector<string>(x.s)); } }
static void check_nat(Ctx& c, Setting& s, const Nat& x, const string& tag) {
    static const char *TN[] = {"bool","int32","int64","uint32","uint64","real","string"}; string w0 = tag + " " + TN[x.ty];
    c.require(s.GetNumberOfValues() == x.n, w0 + ": number of values"); bool num = x.ty >= 1 && x.ty <= 5;
    for (size_t i = 0; i < x.n; i++) { string w = w0 + "[" + to_string(i) + "]";
        bool isint = x.ty >= 1 && x.ty <= 4; __int128 iv = isint ? x.iv[i] : 0; if (x.ty == 5) { double d = x.r[i]; if (d == floor(d) && fabs(d) < 1e30) { isint = true; iv = (__int128)d; } w += "=" + str(d); } else if (isint) w += "=" + i128(iv);
        check_ints(c, w, s, i, x.n, isint, iv, true);
        c.require(s.IsBool(i) == (x.ty == 0), w + ": IsBool"); if (i == 0) c.require(s.IsBool() == (x.ty == 0 && x.n == 1), w + ": IsBool()"); if (x.ty == 0) c.require(s.GetBool(i) == x.b[i], w + ": GetBool"); else c.require(libthrows(c, w, [&]{ s.GetBool(i); }), w + ": GetBool was not refused");
        c.require(s.IsScalar(i) == num, w + ": IsScalar"); if (i == 0) c.require(s.IsScalar() == (num && x.n == 1), w + ": IsScalar()");
        if (num) c.same(s.GetScalar(i), x.ty == 5 ? x.r[i] : (double)x.iv[i], w + ": GetScalar"); else c.require(libthrows(c, w, [&]{ s.GetScalar(i); }), w + ": GetScalar was not refused");
        if (x.ty == 6) c.require(s.GetString(i) == x.s[i], w + ": GetString"); else c.require(libthrows(c, w, [&]{ s.GetString(i); }), w + ": GetString was not refused");
    }
    c.require(s.IsNumericVector() == num && s.IsNumericVector(x.n) == num && !s.IsNumericVector(x.n + 1) && !s.IsNumericVector(x.n - 1), w0 + ": IsNumericVector");
    if (num) { auto v = s.GetNumericVector(); c.require(v.size() == x.n, w0 + ": GetNumericVector size"); for (size_t i = 0; i < x.n; i++) c.same(v[i], x.ty == 5 ? x.r[i] : (double)x.iv[i], w0 + ": GetNumericVector"); } else c.require(libthrows(c, w0, [&]{ s.GetNumericVector(); }), w0 + ": GetNumericVector was not refused");
    if (x.ty == 6) c.require(s.GetTextVector() == x.s, w0 + ": GetTextVector"); else c.require(libthrows(c, w0, [&]{ s.GetTextVector(); }), w0 + ": GetTextVector was not refused");
}
FACET("P08", native_values, 25000, "history with a copy or an overwrite, or a value at a type boundary") {
    vector<pair<Setting*, Nat>> S; Nat x = gen_nat(c); S.push_back({make(x), x}); int ops = (int)c.range(1, 8); bool nt = false;
    for (int k = 0; k < ops; k++) { size_t i = c.draw(S.size()); uint64_t op = c.draw(5);
        if (op == 0 && S.size() < 6) { Nat y = gen_nat(c); S.push_back({make(y), y}); c.note << "new " << y.ty << "x" << y.n << "; "; }
        else if (op == 1 && S.size() < 6) { S.push_back({S[i].first->Copy(), S[i].second}); c.note << "copy " << i << "; "; nt = true; }
        else if (op == 2) { size_t j = c.draw(S.size()); if (i == j) continue; S[i].first->OverwriteValues(S[j].first); S[i].second = S[j].second; c.note << "overwrite " << i << " by " << j << "; "; nt = true; }
        else if (op == 3 && S.size() > 1) { delete S[i].first; S.erase(S.begin() + i); c.note << "delete " << i << "; "; }
        else { // overwrite by a text setting
            int n = c.chance(60) ? 1 : (int)c.range(2, 3); vector<Text> T; vector<string> v; for (int q = 0; q < n; q++) { T.push_back(gen_text(c)); v.push_back(T.back().s); } SettingScript ss("t", v); Setting *d = S[i].first; d->OverwriteValues(&ss); c.note << "overwrite " << i << " by text " << strv(v) << "; "; nt = true;
            bool alln = true; for (auto& t : T) alln &= t.num == 1; string w = "native setting overwritten by " + str(v[0]);
            c.require(d->GetNumberOfValues() == T.size(), w + ": number of values");
            if (n == 1 && T[0].boolv >= 0) c.require(d->IsBool() && d->GetBool() == (T[0].boolv == 1), w + ": boolean");
            else if (alln) { c.require(d->IsNumericVector(n), w + ": is not numeric"); auto r = d->GetNumericVector(); for (int q = 0; q < n; q++) c.same(r.at(q), T[q].dv, w + ": GetNumericVector"); if (n == 1 && T[0].isint && T[0].uclaim) { __int128 iv = T[0].iv; if (LIM(int64_t) || LIM(uint64_t)) check_ints(c, w, *d, 0, 1, true, iv, true); } }
            else c.require(d->GetTextVector() == v, w + ": text");
            delete d; S[i].second = gen_nat(c); S[i].first = make(S[i].second); }
        for (size_t j = 0; j < S.size(); j++) check_nat(c, *S[j].first, S[j].second, "native " + to_string(j));
    }
    for (auto& p : S) delete p.first; c.nontrivial(nt);
}
