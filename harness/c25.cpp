// C25: documentation and configuration text is parsed faithfully or rejected
#include "vfp.hpp"
#include <Pothos/Proxy.hpp>
#include <Pothos/Plugin.hpp>
#include <Pothos/Callable.hpp>
#include <Pothos/Util/BlockDescription.hpp>
#include <Pothos/Util/EvalEnvironment.hpp>
#include <json.hpp>
#include <fstream>
#include <sys/stat.h>
#include <unistd.h>
#include "/repo/apps/PothosUtilDocParse.cpp"
using namespace vf;
using namespace Pothos;
using json = nlohmann::json;

struct Scratch
{
    const std::string dir; Scratch() : dir(scratchDir()) {}
    ~Scratch() { for (auto it = made.rbegin(); it != made.rend(); ++it) if (unlink(it->c_str()) != 0) rmdir(it->c_str()); rmdir(dir.c_str()); }
    std::vector<std::string> made;
    std::string sub(const std::string &n) { const auto p = dir + "/" + n; mkdir(p.c_str(), 0755); made.push_back(p); return p; }
    std::string file(const std::string &n, const std::string &text) { const auto p = dir + "/" + n; { std::ofstream f(p, std::ios::binary); f << text; } made.push_back(p); return p; }
    void track(const std::string &p) { made.push_back(p); }
};

/***********************************************************************
 * block documentation: a model and the source text that declares it
 **********************************************************************/
static json orText(const std::string &s) { try { return json::parse(s); } catch (...) { return s; } }
//! an args string, and the positional and keyword arguments it declares
static std::string args(Rng &r, json &a, json &k)
{
    std::string s; const unsigned n = r.below(4); if (!n && r.chance(1, 3)) return " ";
    for (unsigned i = 0; i < n; i++)
    {
        const std::string v = r.pick(std::vector<std::string>{"1", "-3.5", "foo", "true", "[1, 2, 3]", "{\"a\": 1, \"b\": [2]}", "f(x, y)", "x + 1", "\"text\"", "\"a, b\"", "\"smile :)\"", "a.b", "[f(1,[2]), {}]", "\"(\"", "x[3]", "\"é\"", "0x10"});
        if (i) s += r.pick(std::vector<std::string>{",", ", ", " , "});
        if (r.chance(1, 3)) { const std::string key = "k" + std::to_string(i); s += key + r.pick(std::vector<std::string>{"=", " = "}) + v; k[key] = orText(v); }
        else { s += v; a.push_back(orText(v)); }
    }
    return s;
}
static std::string words(Rng &r) { std::string s; for (unsigned n = 1 + r.below(4); n > 0; n--) s += (s.empty() ? "" : " ") + r.pick(std::vector<std::string>{"gain", "the", "a-b", "100%", "f(x)", "\"q\"", "x=1", "<b>y</b>", "http://h/p", "μs", "back\\slash", "#1", "a|b", "{z}"}); return s; }
static std::string docLine(Rng &r) { switch (r.below(6)) { case 0: return ""; case 1: return "  * " + words(r); case 2: return "|" + r.pick(std::vector<std::string>{"", "word", " spaced"}); default: return words(r) + (r.chance(1, 8) ? "  " : ""); } }
static void put(json &o, const std::string &key, const json &v) { if (!v.empty()) o[key] = v; }
static json squeeze(const std::vector<std::string> &in) { json o = json::array(); for (auto &l : in) { if (l.empty() && (o.empty() || o.back().get<std::string>().empty())) continue; o.push_back(l); } if (!o.empty() && o.back().get<std::string>().empty()) o.erase(o.size() - 1); return o; }
static std::string esc(const std::string &s) { std::string o; for (char c : s) { if (c == '[' || c == ']') o += '\\'; o += c; } return o; }
struct Doc { json want; std::vector<std::string> lines; size_t firstParam = 0, afterParam = 0; bool hasParam = false; };
static int g_serial = 0;
static Doc doc(Rng &r)
{
    Doc d; auto &L = d.lines; json &w = d.want; w = json::object(); std::vector<std::string> docs; const std::string name = words(r); w["name"] = name; L.push_back("|PothosDoc " + r.pick(std::vector<std::string>{"", " "}) + name + r.pick(std::vector<std::string>{"", "  "}));
    bool mode = false, fact = false, inDocState = true; auto general = [&](bool inDoc) {
        switch (r.below(inDoc ? 6 : 2))
        {
        case 0: if (mode) break; mode = true; { const std::string p = r.pick(std::vector<std::string>{"graphWidget", "topology", "x y"}); L.push_back("|mode " + p); w["mode"] = p; } break;
        case 1: case 2: if (!inDoc) break; for (unsigned n = r.below(3); n > 0; n--) { const std::string l = docLine(r); L.push_back(l); docs.push_back(l); } break;
        case 3: { const std::string p = "/Cat " + std::to_string(r.below(9)) + "/Sub"; L.push_back("|category " + p); w["categories"].push_back(p); } break;
        case 4: { std::string l = "|keywords"; for (unsigned n = 1 + r.below(3); n > 0; n--) { const std::string k = r.pick(std::vector<std::string>{"fft", "math", "c++", "été"}); l += r.pick(std::vector<std::string>{" ", "  ", "\t"}) + k; w["keywords"].push_back(k); } L.push_back(l); } break;
        default: { const std::string p = "/vf/alias" + std::to_string(g_serial++); L.push_back("|alias " + p + (r.flip() ? " " : "")); w["aliases"].push_back(p); } break;
        } };
    auto factory = [&] { fact = inDocState = true; const std::string p = "/vf/f" + std::to_string(g_serial++) + (r.flip() ? "/x_y" : ""); json a, k; const auto s = args(r, a, k); L.push_back("|factory " + p + "(" + s + ")" + (r.chance(1, 5) ? " " : "")); w["path"] = p; put(w, "args", a); put(w, "kwargs", k); };
    for (unsigned n = r.below(4); n > 0; n--) general(true);
    const bool early = r.chance(1, 6); if (early) { factory(); for (unsigned n = r.below(3); n > 0; n--) general(true); }
    const unsigned np = r.below(4); if (np) w["params"] = json::array(); d.firstParam = L.size();
    for (unsigned i = 0; i < np; i++)
    {
        json p; d.hasParam = true; inDocState = false; const std::string key = "key" + std::to_string(i) + r.pick(std::vector<std::string>{"", "_x", "Z"}); std::string nm = r.flip() ? "" : r.pick(std::vector<std::string>{"Nice Name", "n", "Array [0]", "x[i][j] y", "100 %"}); std::string de = r.chance(1, 4) ? "" : words(r) + r.pick(std::vector<std::string>{"", " [range]", " in [a, b]"});
        p["key"] = key; p["name"] = nm.empty() ? std::string(1, char(toupper(key[0]))) + key.substr(1) : nm; std::vector<std::string> desc{de};
        L.push_back("|param " + key + (nm.empty() ? "" : r.pick(std::vector<std::string>{"", " "}) + r.pick(std::vector<std::string>{"[", "[ "}) + esc(nm) + r.pick(std::vector<std::string>{"]", " ]"})) + (de.empty() ? "" : " " + esc(de)));
        for (unsigned n = r.below(3); n > 0; n--) { const std::string l = docLine(r); L.push_back(l); desc.push_back(l); }
        std::vector<unsigned> which; for (unsigned q = 0; q < 7; q++) if (r.chance(2, 5)) which.push_back(q); for (size_t q = 0; q + 1 < which.size(); q++) std::swap(which[q], which[q + r.below(which.size() - q)]);
        for (unsigned q : which) switch (q)
        {
        case 0: { const std::string v = r.pick(std::vector<std::string>{"0", "\"text\"", "[1, 2]", "a b", "-1e9", "[]"}); L.push_back("|default " + v); p["default"] = v; break; }
        case 1: { const std::string v = r.pick(std::vector<std::string>{"Hz", "μs", "dB [rms]"}); L.push_back("|units   " + v); p["units"] = v; break; }
        case 2: { json a, k; const auto s = args(r, a, k); const std::string t = r.pick(std::vector<std::string>{"SpinBox", "ComboBox", "X_1"}); L.push_back("|widget " + t + r.pick(std::vector<std::string>{"(", " ("}) + s + ")"); p["widgetType"] = t; put(p, "widgetArgs", a); put(p, "widgetKwargs", k); break; }
        case 3: { L.push_back("|tab The Tab"); p["tab"] = "The Tab"; break; }
        case 4: { json a, k; const std::string t = r.pick(std::vector<std::string>{"enable", "disable", "valid", "invalid", "when"}); std::string s; if (r.flip()) s = "(" + args(r, a, k) + ")"; L.push_back("|preview " + t + s); p["preview"] = t; put(p, "previewArgs", a); put(p, "previewKwargs", k); break; }
        default: for (unsigned n = 1 + r.below(3); n > 0; n--) { const std::string v = r.pick(std::vector<std::string>{"1", "\"on\"", "[1, 2]", "float32", "a(b)"}), on = r.flip() ? "" : r.pick(std::vector<std::string>{"One", "Option [x]", "a b"}); L.push_back("|option " + (on.empty() ? "" : "[" + esc(on) + "] ") + esc(v)); json o; o["value"] = v; o["name"] = on.empty() ? std::string(1, char(toupper((unsigned char)v[0]))) + v.substr(1) : on; p["options"].push_back(o); }
        }
        if (r.chance(1, 5)) { L.push_back("late text"); desc.push_back("late text"); }
        if (r.chance(1, 8)) general(false);
        p["desc"] = squeeze(desc); w["params"].push_back(p);
    }
    d.afterParam = L.size();
    const unsigned after = r.below(4); for (unsigned i = 0; i < after || !fact; i++)
    {
        if (!fact) { factory(); }
        else if (r.flip()) { json c, a, k; const std::string t = r.pick(std::vector<std::string>{"setter", "initializer"}), n = r.pick(std::vector<std::string>{"setFoo", "setBar2", "_x"}); const auto s = args(r, a, k); L.push_back("|" + t + " " + n + "(" + s + ")"); c["type"] = t; c["name"] = n; put(c, "args", a); put(c, "kwargs", k); w["calls"].push_back(c); inDocState = true; }
        else general(inDocState);
    }
    put(w, "docs", squeeze(docs)); return d;
}
static bool nothing(const json &j) { return j.is_null() || (j.is_structured() && j.empty()); }
static bool same(const json &a, const json &b, std::string &where)
{
    if (nothing(a) && nothing(b)) return true; if (a.is_object() && b.is_object())
    {
        for (auto it = a.begin(); it != a.end(); ++it) { if (!b.count(it.key())) { if (nothing(it.value())) continue; where += "." + it.key() + " unexpected: " + it.value().dump(); return false; } if (!same(it.value(), b.at(it.key()), where)) { where = it.key() + "." + where; return false; } }
        for (auto it = b.begin(); it != b.end(); ++it) if (!a.count(it.key()) && !nothing(it.value())) { where += "." + it.key() + " missing: " + it.value().dump(); return false; }
        return true;
    }
    if (a.is_array() && b.is_array()) { if (a.size() != b.size()) { where += " " + a.dump() + " declared " + b.dump(); return false; } for (size_t i = 0; i < a.size(); i++) if (!same(a[i], b[i], where)) return false; return true; }
    if (a != b) { where += " " + a.dump() + " declared " + b.dump(); return false; } return true;
}
struct Style { const char *open, *indent, *close; };
static const Style STYLES[] = {{"/***********", " * ", " ***********/"}, {"", "// ", ""}, {"/*!", "    ", "*/"}, {"", "    /// ", ""}, {"\t/*", "\t * ", "\t */"}, {"/**", " *  ", " */ int afterComment;"}, {"int beforeComment; /*", "", "*/"}, {"", "//", ""}};
//! the comment block holding some documentation
static std::vector<std::string> comment(Rng &r, const std::vector<std::string> &lines, const Style &s)
{
    std::vector<std::string> o; const std::string ind = s.indent; if (*s.open) o.push_back(s.open);
    if (r.chance(1, 3)) { o.push_back(ind + "Copyright line"); if (r.flip()) o.push_back(ind + " see |Pothos or PothosDoc"); }
    for (auto &l : lines) { std::string t = ind + l; if (l.empty() && r.flip()) { while (!t.empty() && (t.back() == ' ' || t.back() == '\t')) t.pop_back(); if (t.empty() && r.flip()) t = ""; } o.push_back(t); }
    if (*s.close) o.push_back(s.close); return o;
}
static void noise(Rng &r, std::vector<std::string> &o, bool after = true)
{
    if (after) o.push_back("class Foo;"); //comments that touch are one comment
    for (unsigned n = r.below(4); n > 0; n--) switch (r.below(9))
    {
    case 0: o.push_back("#include <vector>"); break; case 1: o.push_back("int x = a / b * c;"); break; case 2: o.push_back(""); break; case 3: o.push_back("// unrelated comment"); break;
    case 4: o.push_back("/* one line */"); break; case 5: o.push_back("int y; /* trailing comment */ int z;"); break; case 6: o.push_back("/*"); o.push_back(" * unrelated |param foo"); o.push_back(" */"); break; case 7: o.push_back("/* a */ /* b */ int w;"); break; default: o.push_back("    return \"|PothosDoc not in a comment\";");
    }
    o.push_back("void function(void) {}");
}
static std::string join(const std::vector<std::string> &v, bool crlf, bool last) { std::string s; for (size_t i = 0; i < v.size(); i++) { s += v[i]; if (i + 1 < v.size() || last) s += crlf ? "\r\n" : "\n"; } return s; }
//! blank comment lines of an undecorated comment style are blank source lines, which separate nothing and document nothing
static std::string source(Rng &r, std::vector<Doc> &docs, bool marks = false, size_t *bad = nullptr)
{
    (void)marks; (void)bad; std::vector<std::string> o; noise(r, o, false);
    for (auto &d : docs)
    {
        const auto &st = STYLES[r.below(8)]; std::vector<std::string> lines = d.lines; const auto c = comment(r, lines, st); o.insert(o.end(), c.begin(), c.end()); noise(r, o); count("comment_styles"); distinct(std::string("style ") + st.open + st.indent);
    }
    return join(o, r.chance(1, 4), r.chance(7, 8));
}
//! source lines that are entirely empty are skipped, so they cannot be told from no line at all
static void dropBlank(json &lines) { json o = json::array(); if (lines.is_array()) for (auto &l : lines) if (!(l.is_string() && l.get<std::string>().empty())) o.push_back(l); lines = o; }
static void relax(json &w) { if (w.count("docs")) dropBlank(w["docs"]); if (w.count("params")) for (auto &p : w["params"]) dropBlank(p["desc"]); }

static void docsCase(Rng &r, uint64_t)
{
    Util::BlockDescriptionParser p; json want = json::array(); std::vector<std::string> facts; std::map<std::string, json> by; std::string all;
    for (unsigned f = 1 + r.below(2); f > 0; f--)
    {
        std::vector<Doc> docs; for (unsigned n = r.below(4); n > 0; n--) docs.push_back(doc(r)); const std::string text = source(r, docs); all += text;
        std::string err; if (r.flip()) { std::istringstream is(text); err = caught([&] { p.feedStream(is); }); } else { Scratch s; const auto fp = s.file("src.cpp", text); err = caught([&] { p.feedFilePath(fp); }); count("files"); }
        VF_CHECK(err.empty(), "valid-documentation-refused", err << "\n" << text); if (!err.empty()) return;
        for (auto &d : docs) { want.push_back(d.want); std::vector<std::string> ps{d.want["path"].get<std::string>()}; if (d.want.count("aliases")) for (auto &a : d.want["aliases"]) ps.push_back(a); for (auto &q : ps) { facts.push_back(q); by[q] = d.want; } count("documents"); count("directives", d.lines.size()); }
    }
    VF_CHECK(p.listFactories() == facts, "factories-differ", p.listFactories().size() << " listed, declared " << facts.size() << "\n" << all);
    json got; const auto err = caught([&] { got = json::parse(p.getJSONArray(r.below(3) * 2)); }); VF_CHECK(err.empty() && got.is_array() && got.size() == want.size(), "description-count", err << " " << got.dump().substr(0, 200) << " declared " << want.size() << "\n" << all);
    if (!got.is_array() || got.size() != want.size()) return;
    for (size_t i = 0; i < want.size(); i++) { json g = got[i], w = want[i]; relax(g); relax(w); std::string where; VF_CHECK(same(g, w, where), "description-differs", where << "\n" << all); }
    for (auto &b : by) { json g = json::parse(p.getJSONObject(b.first)), w = b.second; relax(g); relax(w); std::string where; VF_CHECK(same(g, w, where), "description-differs", b.first << ": " << where << "\n" << all); }
    VF_CHECK(!caught([&] { p.getJSONObject("/vf/nosuch"); }).empty(), "unknown-factory-described", ""); distinct(all); sample(all);
}

//! one planted mistake
static void badDocsCase(Rng &r, uint64_t)
{
    std::vector<Doc> before; for (unsigned n = r.below(3); n > 0; n--) before.push_back(doc(r)); Doc d; do d = doc(r); while (!d.hasParam); auto &L = d.lines; size_t at = L.size(); std::string how; bool indent = false; std::vector<std::string> ins;
    auto inParam = [&](std::vector<std::string> v) { at = d.afterParam; ins = v; }; auto atEnd = [&](std::vector<std::string> v) { at = L.size(); ins = v; };
    const unsigned k = r.below(19); switch (k)
    {
    case 0: how = "two defaults"; inParam({"|param q", "|default 1", "|default 1"}); break; case 1: how = "two units"; inParam({"|param q", "|units a", "text", "|units b"}); break; case 2: how = "two widgets"; inParam({"|param q", "|widget A()", "|widget A()"}); break; case 3: how = "two tabs"; inParam({"|param q", "|tab A", "|tab B"}); break; case 4: how = "two previews"; inParam({"|param q", "|preview enable", "|preview enable"}); break;
    case 5: how = "two modes"; atEnd({"|mode a", "|mode b"}); break; case 6: how = "two factories"; atEnd({"|factory /vf/second()"}); break; case 7: how = "param without a key"; inParam({r.pick(std::vector<std::string>{"|param [name] text", "|param ???", "|param -x y"})}); break; case 8: how = "widget without arguments"; inParam({"|param q", r.pick(std::vector<std::string>{"|widget SpinBox", "|widget (a)", "|widget A(b", "|widget a b(c)"})}); break;
    case 9: how = "unknown preview"; inParam({"|param q", r.pick(std::vector<std::string>{"|preview sometimes", "|preview enabled", "|preview enable(", "|preview a b"})}); break; case 10: how = "bad factory"; { for (auto it = L.begin(); it != L.end(); ++it) if (it->compare(0, 9, "|factory ") == 0) { *it = r.pick(std::vector<std::string>{"|factory vf/x()", "|factory /vf/x", "|factory ()", "|factory /vf/b ad!(x)", "|factory /vf/x(", "|factory /vf//x()"}); break; } } break;
    case 11: how = "bad setter"; atEnd({r.pick(std::vector<std::string>{"|setter foo", "|setter foo bar(x)", "|setter (x)", "|setter foo(x"})}); break; case 12: how = "bad initializer"; atEnd({r.pick(std::vector<std::string>{"|initializer foo", "|initializer a-b(x)"})}); break; case 13: how = "bad alias"; at = 1; ins = {r.pick(std::vector<std::string>{"|alias nopath", "|alias /a b!", "|alias /a//b"})}; break;
    case 14: how = "closing bracket"; atEnd({r.pick(std::vector<std::string>{"|setter foo(a])", "|setter foo(a), b)", "|initializer foo(})"})}); break; case 15: how = "open bracket"; atEnd({r.pick(std::vector<std::string>{"|setter foo(a, [b)", "|initializer foo({)", "|setter foo(f(1)"})}); break;
    case 16: how = "no factory"; L.erase(std::remove_if(L.begin(), L.end(), [](const std::string &l) { return l.compare(0, 9, "|factory ") == 0; }), L.end()); at = L.size(); break;
    case 17: how = "two previews, second with arguments"; inParam({"|param q", "|preview when(a)", "|preview disable"}); break;
    default: how = "inconsistent indentation"; indent = true; at = 1 + r.below(L.size() - 1); ins = {"shifted"};
    }
    L.insert(L.begin() + at, ins.begin(), ins.end()); std::vector<std::string> o; json want = json::array(); std::vector<std::string> facts;
    for (auto &b : before) { const auto c = comment(r, b.lines, STYLES[r.below(8)]); o.insert(o.end(), c.begin(), c.end()); noise(r, o); facts.push_back(b.want["path"].get<std::string>()); if (b.want.count("aliases")) for (auto &a : b.want["aliases"]) facts.push_back(a); }
    const auto &st = indent ? STYLES[r.pick(std::vector<int>{0, 1, 4, 5})] : STYLES[r.below(8)]; auto c = comment(r, L, st); if (indent) for (auto &l : c) if (l == st.indent + std::string("shifted")) l = (st.open[0] ? "shifted text here" : "//shifted text"); o.insert(o.end(), c.begin(), c.end()); noise(r, o);
    const std::string text = join(o, r.chance(1, 4), true); std::istringstream is(text); Util::BlockDescriptionParser p; std::string kind = "accepted", msg; try { p.feedStream(is); } catch (const SyntaxException &e) { kind = "syntax"; msg = e.displayText(); } catch (const std::exception &e) { kind = std::string("other: ") + e.what(); }
    VF_CHECK(kind != "accepted", "malformed-documentation-accepted", how << "\n" << text); VF_CHECK(kind == "syntax" || kind == "accepted", "wrong-exception", how << " " << kind << "\n" << text);
    const auto got = p.listFactories(); VF_CHECK(kind != "syntax" || got == facts, "documents-before-mistake", how << " listed " << got.size() << " of " << facts.size() << "\n" << text);
    if (kind == "syntax" && k != 16 && !indent) { size_t n = 0; for (size_t i = 0; i < o.size(); i++) { (void)i; n++; } (void)n; VF_CHECK(msg.size() > 10, "error-names-nothing", msg); }
    count("refused: " + how); count("mistakes_refused"); distinct(how + text); if (r.chance(1, 30)) sample(how + ": " + text);
}

static void fuzzDocsCase(Rng &r, uint64_t)
{
    std::vector<Doc> docs; for (unsigned n = 1 + r.below(3); n > 0; n--) docs.push_back(doc(r)); std::string t = source(r, docs);
    for (unsigned k = 1 + r.below(6); k > 0 && !t.empty(); k--) { const size_t p = r.below(t.size()), n = 1 + r.below(12); switch (r.below(8)) { case 0: t[p] = char(r.below(256)); break; case 1: t.erase(p, n); break; case 2: t.insert(p, t.substr(r.below(t.size()), n * 3)); break; case 3: t.insert(p, r.pick(std::vector<std::string>{"/*", "*/", "//", "\n", "\r", "|", "|PothosDoc x", "\n|factory /vf/q()\n", "[", "]", "(", ")", "\\[", "\"", "=", ",", "\n// |default 3\n", "|param a[b] c"})); break; case 4: t.resize(p); break; case 5: t.insert(p, std::string(r.below(400), r.pick(std::vector<char>{'a', ' ', '[', '*', '(', '|', '\xff'}))); break; case 6: t.insert(p, std::string(1, '\0')); break; default: t = t.substr(p) + t.substr(0, p); } }
    std::istringstream is(t); Util::BlockDescriptionParser p; const auto err = caught([&] { p.feedStream(is); }); count(err.empty() ? "mutants_accepted" : "mutants_refused");
    for (auto &f : p.listFactories()) { std::string s; if (!caught([&] { s = p.getJSONObject(f); }).empty()) { count("undumpable"); continue; } const auto j = json::parse(s); bool ok = j.at("path") == f; if (j.count("aliases")) for (auto &a : j.at("aliases")) ok = ok || a == f; VF_CHECK(ok, "factory-of-another", f << "\n" << t); }
    std::string s; if (caught([&] { s = p.getJSONArray(); }).empty()) VF_CHECK(json::parse(s).is_array(), "not-an-array", s.substr(0, 100)); distinct(t);
}
//! comments and code with very long lines
static void longCase(Rng &r, uint64_t)
{
    const size_t n = size_t(1000) << r.below(9); std::vector<std::string> o{"// |PothosDoc Long", "// |factory /vf/long(a)"}; const std::string big(n, r.pick(std::vector<char>{'x', ' ', '\t', '*'}));
    switch (r.below(4)) { case 0: o.insert(o.begin(), "// " + big); break; case 1: o.insert(o.begin() + 1, "// " + big); break; case 2: o.push_back("int x; // " + big); break; default: o.insert(o.begin(), "/*" + big + "*/ int y;"); }
    o.push_back("int x;"); std::istringstream is(join(o, false, true)); Util::BlockDescriptionParser p; const auto err = caught([&] { p.feedStream(is); }); VF_CHECK(err.empty() && p.listFactories() == std::vector<std::string>{"/vf/long"}, "long-line", n << " " << err); count("long_line_chars", n); distinct(std::to_string(n) + big[0] + std::to_string(o.size()));
}

//! the generated C++ registration decodes to the description
struct App : PothosUtilBase {};
static void cppCase(Rng &r, uint64_t)
{
    static App *app = new App(); Scratch s; std::vector<std::string> in; std::vector<std::pair<std::string, json>> want; json arr = json::array();
    for (unsigned f = 1 + r.below(2); f > 0; f--) { std::vector<Doc> docs; for (unsigned n = r.below(3); n > 0; n--) docs.push_back(doc(r)); in.push_back(s.file("s" + std::to_string(f) + ".cpp", source(r, docs))); for (auto &d : docs) { arr.push_back(d.want); want.emplace_back(d.want["path"].get<std::string>(), d.want); if (d.want.count("aliases")) for (auto &a : d.want["aliases"]) want.emplace_back(a.get<std::string>(), d.want); } }
    const bool cpp = r.chance(2, 3); const std::string out = s.dir + (cpp ? "/out.cpp" : "/out.json"); app->config().setString("outputFile", out); const auto err = caught([&] { app->docParse(in); }); s.track(out); VF_CHECK(err.empty(), "valid-documentation-refused", err); if (!err.empty()) return; std::ifstream is(out); std::string text((std::istreambuf_iterator<char>(is)), std::istreambuf_iterator<char>()), where;
    if (!cpp) { json j; const auto e = caught([&] { j = json::parse(text); }); VF_CHECK(e.empty() && j.is_array() && j.size() == arr.size(), "json-output", e << " " << text.substr(0, 80)); if (j.is_array() && j.size() == arr.size()) for (size_t i = 0; i < arr.size(); i++) { relax(j[i]); json w = arr[i]; relax(w); VF_CHECK(same(j[i], w, where), "json-output-differs", where); } count("json_outputs"); return; }
    size_t i = 0, pos = 0; while ((pos = text.find("PluginRegistry::add(", pos)) != std::string::npos)
    {
        //read the two string literals the way a compiler does
        std::vector<std::string> lit; pos += 20; for (int q = 0; q < 2; q++) { pos = text.find('"', pos); if (pos == std::string::npos) break; pos++; std::string v; while (pos < text.size() && text[pos] != '"') { if (text[pos] == '\\' && text[pos + 1] == 'x') { pos += 2; unsigned long long c = 0; size_t nd = 0; while (isxdigit((unsigned char)text[pos])) { c = c * 16 + std::stoul(std::string(1, text[pos]), nullptr, 16); pos++; nd++; } VF_CHECK(c <= 0xff && nd > 0, "literal-out-of-range", std::hex << c); if (c > 0xff) return; v += char(c); } else v += text[pos++]; } pos++; lit.push_back(v); }
        VF_CHECK(i < want.size() && lit.size() == 2, "extra-registration", i); if (i >= want.size() || lit.size() != 2) return; VF_CHECK(lit[0] == "/blocks/docs" + want[i].first, "registration-path", lit[0] << " expected " << want[i].first); json g, w = want[i].second; const auto e = caught([&] { g = json::parse(lit[1]); }); VF_CHECK(e.empty(), "registration-text", e << " " << lit[1].substr(0, 100)); if (e.empty()) { relax(g); relax(w); VF_CHECK(same(g, w, where), "registration-differs", where); } i++; count("registrations");
    }
    VF_CHECK(i == want.size(), "registration-missing", i << " of " << want.size()); distinct(text);
}

/***********************************************************************
 * conf files
 **********************************************************************/
typedef std::map<std::string, std::string> Conf;
static std::mutex g_mx; static std::vector<Conf> g_seen;
static std::vector<PluginPath> recordLoader(const Conf &c)
{
    { std::lock_guard<std::mutex> l(g_mx); g_seen.push_back(c); } auto it = c.find("fail"); if (it != c.end()) { if (it->second == "pothos") throw Pothos::RuntimeException("refused"); if (it->second == "std") throw std::runtime_error("refused"); if (it->second == "int") throw 3; }
    std::vector<PluginPath> o; for (int i = 0; i < 2; i++) { o.push_back(PluginPath("/vf/conf").join(c.at("name")).join(std::to_string(i))); PluginRegistry::add(o.back(), Object(i)); } return o;
}
static void confCase(Rng &r, uint64_t)
{
    Scratch s; std::vector<std::string> dirs{s.dir}; for (unsigned n = r.below(4); n > 0; n--) { const std::string parent = r.pick(dirs); const std::string rel = parent.substr(s.dir.size()) + "/d" + std::to_string(dirs.size()) + r.pick(std::vector<std::string>{"", ".conf", " x"}); s.sub(rel.substr(1)); dirs.push_back(s.dir + rel); }
    std::vector<Conf> want; std::set<std::string> entries; size_t failing = 0; std::string log;
    for (unsigned i = 0, n = r.below(7); i < n; i++)
    {
        const std::string dir = r.pick(dirs); const unsigned kind = r.below(12); std::string base = "/c" + std::to_string(i), text; Conf c; const bool isConf = kind != 0; const std::string path = dir + base + (isConf ? ".conf" : r.pick(std::vector<std::string>{".cfg", "", ".conf.bak", ".CONFIG"}));
        auto kv = [&](const std::string &k, const std::string &v) { text += r.pick(std::vector<std::string>{"", " ", "\t"}) + k + r.pick(std::vector<std::string>{"=", " = ", ": ", ":"}) + v + r.pick(std::vector<std::string>{"", " "}) + (r.chance(1, 4) ? "\r\n" : "\n"); c[k] = v; };
        if (r.flip()) text += "# a comment = 1\n"; if (r.chance(1, 3)) text += "! other: comment\n\n"; if (kind != 1) kv("loader", kind == 2 ? "vf_nosuch" : "vf_record"); kv("name", "n" + std::to_string(i)); for (unsigned q = r.below(4); q > 0; q--) kv("key" + std::to_string(q) + r.pick(std::vector<std::string>{"", "_x", "-y", ".sub", ".sub.deep"}), r.pick(std::vector<std::string>{"value", "two words", "a=b", "x:y", "", "/p/q r", "#nocomment", "1,2"}));
        if (r.chance(1, 4)) { text += "long = one \\\n two\n"; c["long"] = "one  two"; } if (kind == 3 || kind == 4) kv("fail", r.pick(std::vector<std::string>{"pothos", "std", "int"})); if (kind == 5) { text += "loop = ${loop}\n"; } if (r.chance(1, 5)) { text += "ref = ${name}/x\n"; c["ref"] = c["name"] + "/x"; }
        s.file(path.substr(s.dir.size() + 1), text); log += path + " {" + text + "} "; if (!isConf) { count("other_files"); continue; } c["confFilePath"] = path; if (kind == 1 || kind == 2 || kind == 5) { failing++; continue; } want.push_back(c); if (kind == 3 || kind == 4) { failing++; continue; } entries.insert("/vf/conf/n" + std::to_string(i));
    }
    if (r.chance(1, 5)) { const std::string l = s.dir + "/broken.conf"; if (symlink("/nonexistent/x.conf", l.c_str()) == 0) s.track(l); }
    Pothos::deinit(); g_seen.clear(); const auto errs0 = CountChannel::get().errors("Pothos.ConfLoader"); setenv("POTHOS_CONF_PATH", (r.flip() ? s.dir : s.dir + "::/nonexistent/dir").c_str(), 1); const auto err = caught([&] { Pothos::init(); if (r.flip()) Pothos::init(); }); unsetenv("POTHOS_CONF_PATH");
    VF_CHECK(err.empty(), "conf-load-failed", err << " for " << log); std::set<std::string> gs; if (PluginRegistry::exists("/vf/conf")) for (auto &n : PluginRegistry::list("/vf/conf")) gs.insert("/vf/conf/" + n); VF_CHECK(!err.empty() || gs == entries, "conf-entries-differ", gs.size() << " present, expected " << entries.size() << " for " << log);
    const auto errd = caught([&] { Pothos::deinit(); }); VF_CHECK(errd.empty(), "conf-unload-failed", errd); size_t left = 0; for (auto &e : entries) for (auto x : {"/0", "/1"}) if (PluginRegistry::exists(e + x)) { left++; PluginRegistry::remove(e + x); } VF_CHECK(!err.empty() || !left, "conf-entries-left", left << " for " << log); if (!err.empty()) return;
    auto text = [](const Conf &c) { std::string t; for (auto &p : c) t += p.first + "=" + p.second + "\n"; return t; }; std::multiset<std::string> a, b; for (auto &c : g_seen) a.insert(text(c)); for (auto &c : want) b.insert(text(c)); std::string diff; for (auto &x : a) if (!b.count(x)) diff += " loaded <" + x + ">"; for (auto &x : b) if (!a.count(x)) diff += " expected <" + x + ">"; VF_CHECK(a == b, "conf-content-differs", diff << " for " << log);
    const auto errs = CountChannel::get().errors("Pothos.ConfLoader") - errs0; VF_CHECK(errs == failing, "conf-errors-reported", errs << " for " << failing << " broken files " << log); count("conf_files", want.size()); count("conf_failures", failing); distinct(log); sample(log);
}

//! block descriptions registered from a JSON file
static void descCase(Rng &r, uint64_t)
{
    Scratch s; json arr = json::array(); std::map<std::string, json> by; const unsigned n = r.below(4); for (unsigned i = 0; i < n; i++) { json d = doc(r).want; by["/blocks/docs" + d["path"].get<std::string>()] = d; if (d.count("aliases")) for (auto &a : d["aliases"]) by["/blocks/docs" + a.get<std::string>()] = d; arr.push_back(d); }
    json top = n == 1 && r.flip() ? arr[0] : arr; std::string text = top.dump(int(r.below(3)) * 2), how; unsigned bad = r.chance(1, 3) ? 1 + r.below(6) : 0; Conf conf{{"confFilePath", s.dir + "/x.conf"}, {"json", "d.json"}, {"loader", "block_desc"}};
    switch (bad) { case 1: text = text.substr(0, text.size() - 1); how = "cut"; break; case 2: top = json::array({json{{"name", "x"}}}); text = top.dump(); how = "no path"; break; case 3: text = "[3]"; how = "not an object"; break; case 4: text = json::array({json{{"path", 4}}}).dump(); how = "path not a string"; break; case 5: conf.erase("json"); how = "no json key"; break; case 6: conf["json"] = "missing.json"; how = "missing file"; break; default: break; }
    s.file("d.json", text); const auto loader = PluginRegistry::get("/framework/conf_loader/block_desc").getObject().extract<Callable>(); std::vector<PluginPath> got; const auto err = caught([&] { got = loader.call(conf).convert<std::vector<PluginPath>>(); });
    if (bad) { VF_CHECK(!err.empty(), "bad-description-accepted", how << " " << text); count("bad_descriptions"); distinct(how + text); return; }
    VF_CHECK(err.empty(), "description-refused", err << " " << text); std::set<std::string> gs; for (auto &p : got) gs.insert(p.toString()); std::set<std::string> ws; for (auto &b : by) ws.insert(b.first); VF_CHECK(gs == ws && got.size() == gs.size(), "description-entries", gs.size() << " expected " << ws.size());
    auto env = ProxyEnvironment::make("managed"); auto utils = env->findProxy("Pothos/Util/DocUtils"); const auto all = json::parse(utils.call<std::string>("dumpJson")); size_t found = 0; for (auto &b : by) { const auto j = json::parse(utils.call("dumpJsonAt", b.first.substr(12)).convert<std::string>()); VF_CHECK(j == b.second, "registered-description-differs", b.first); size_t k = 0; for (auto &x : all) if (x == b.second) k++; VF_CHECK(k >= 1, "description-not-dumped", b.first); found += k; } VF_CHECK(all.size() == by.size(), "dump-count", all.size() << " expected " << by.size());
    for (auto &p : got) PluginRegistry::remove(p); VF_CHECK(json::parse(utils.call<std::string>("dumpJson")).empty(), "dump-after-removal", ""); count("descriptions_registered", by.size()); distinct(text);
}

/***********************************************************************
 * block evaluator
 **********************************************************************/
static std::vector<std::string> g_log; static int64_t g_alive = 0;
static std::string show(double v) { std::ostringstream o; o.precision(12); o << v; return o.str(); }
static std::string norm(const Object &o) { if (o.type() == typeid(bool)) return o.extract<bool>() ? "T" : "F"; if (o.type() == typeid(std::string)) return "s:" + o.extract<std::string>(); if (o.canConvert(typeid(ProxyVector))) { std::string s = "["; for (auto &p : o.convert<ProxyVector>()) s += norm(p.toObject()) + ","; return s + "]"; } if (o.type() == typeid(DType)) return "d:" + o.extract<DType>().toString(); return show(o.convert<double>()); }
struct Rec : Block { void nop(void) {} Rec() { g_alive++; for (auto n : {"one", "two", "three"}) registerCall(this, n, &Rec::nop); } ~Rec() { g_alive--; }
    Object opaqueCallHandler(const std::string &n, const Object *a, const size_t k) { if (n != "one" && n != "two" && n != "three") return Block::opaqueCallHandler(n, a, k); std::string s = "call " + n + "("; for (size_t i = 0; i < k; i++) s += norm(a[i]) + ";"; g_log.push_back(s + ")"); return Object(); }
    static Object mk(const Object *a, const size_t k) { std::string s = "new("; for (size_t i = 0; i < k; i++) { s += norm(a[i]) + ";"; if (a[i].type() == typeid(std::string) && a[i].extract<std::string>() == "throw") throw Pothos::RuntimeException("refused"); } g_log.push_back(s + ")"); return Object(std::shared_ptr<Block>(new Rec())); } };
struct V { char t; double n; std::string s; bool b; std::vector<double> v; V() : t('n'), n(0), b(false) {} std::string norm(void) const { switch (t) { case 'n': return show(n); case 's': return "s:" + s; case 'b': return b ? "T" : "F"; case 'd': return "d:float32"; default: { std::string o = "["; for (double x : v) o += show(x) + ","; return o + "]"; } } } };
typedef std::map<std::string, V> Env;
//! an expression over the numeric names of a scope, or one that cannot be evaluated in it
static std::string expr(Rng &r, const Env &e, V &v, bool &ok, const std::vector<std::string> &unknown)
{
    v = V(); ok = true; std::vector<std::string> nums, strs; for (auto &p : e) { if (p.second.t == 'n') nums.push_back(p.first); if (p.second.t == 's') strs.push_back(p.first); }
    switch (r.below(7)) { case 0: v.n = double(r.range(0, 99)); return show(v.n); case 1: case 2: if (!nums.empty()) { const auto n = r.pick(nums); const double k = double(r.range(1, 9)); v.n = e.at(n).n * k + 2; return n + "*" + show(k) + "+2"; } v.n = 7; return "3+4"; case 3: v.t = 'b'; v.b = r.flip(); return v.b ? "true" : "false"; case 4: if (!strs.empty() && r.flip()) { const auto n = r.pick(strs); v = e.at(n); return n; } v.t = 's'; v.s = r.pick(std::vector<std::string>{"text", "two words"}); return "\"" + v.s + "\""; case 5: v.t = 'v'; { std::string t = "["; for (unsigned k = 1 + r.below(3); k > 0; k--) { double x = double(k); std::string q = show(x); if (!nums.empty() && r.flip()) { q = r.pick(nums); x = e.at(q).n; } t += (t.size() > 1 ? ", " : "") + q; v.v.push_back(x); } return t + "]"; }
    default: if (!unknown.empty() && r.chance(1, 2)) { const auto n = r.pick(unknown); if (!e.count(n)) { ok = false; return n + "+1"; } } v.n = 1; return "1"; }
}
static void evalCase(Rng &r, uint64_t c)
{
    json d; const std::string path = "/vf/ev" + std::to_string(c) + "x" + std::to_string(g_serial++); d["path"] = path; const std::vector<std::string> names{"pa", "pb", "pc", "pd"}, cons{"ca", "cb", "cc"}; std::string h;
    //arguments are property names, expressions over properties, or native JSON values
    std::vector<std::vector<std::string>> argx; auto argList = [&](json &o, bool allowNone) { if (allowNone && r.chance(1, 4)) return; o["args"] = json::array(); for (unsigned n = r.below(4); n > 0; n--) switch (r.below(5)) { case 0: case 1: o["args"].push_back(r.pick(names)); break; case 2: o["args"].push_back(r.pick(names) + "*2"); break; case 3: o["args"].push_back(r.flip() ? json(int(r.below(50))) : r.flip() ? json(r.flip()) : json::array({1, 2})); break; default: o["args"].push_back(r.pick(std::vector<std::string>{"3+4", "\"lit\"", "ca+1"})); } };
    argList(d, true); if (r.chance(4, 5)) { d["calls"] = json::array(); for (unsigned n = r.below(5); n > 0; n--) { json k; k["name"] = r.pick(std::vector<std::string>{"one", "two", "three"}); k["type"] = r.flip() ? "setter" : "initializer"; argList(k, true); d["calls"].push_back(k); } }
    PluginRegistry::add("/blocks/docs" + path, d.dump()); PluginRegistry::add("/blocks" + path, Callable(&Rec::mk)); const auto alive0 = g_alive;
    {
        auto env = ProxyEnvironment::make("managed"); auto ee = std::make_shared<Util::EvalEnvironment>(); auto be = env->findProxy("Pothos/Util/BlockEval")(path, ee); Env C, P; bool have = false;
        auto value = [&](const json &a, std::string &out) -> bool {
            if (!a.is_string()) { if (a.is_boolean()) out += a.get<bool>() ? "T" : "F"; else if (a.is_array()) { out += "["; for (auto &x : a) out += show(x.get<double>()) + ","; out += "]"; } else out += show(a.get<double>()); out += ";"; return true; }
            const std::string t = a; if (P.count(t)) { out += P[t].norm() + ";"; return true; } if (t == "3+4") { out += "7;"; return true; } if (t == "\"lit\"") { out += "s:lit;"; return true; } if (t.size() == 4 && t[2] == '*') { const std::string n = t.substr(0, 2); if (P.count(n) && P[n].t == 'n') { out += show(P[n].n * 2) + ";"; return true; } return false; } return false; };
        //2: result not modelled (e.g. scaling a list)
        auto fuzzy = [&](const json &o) { if (o.count("args")) for (auto &a : o["args"]) if (a.is_string()) { const std::string t = a; if (t.size() == 4 && t[2] == '*') { const std::string n = t.substr(0, 2); if (P.count(n) && P[n].t != 'n') return true; } } return false; };
        auto argsOf = [&](const json &o, std::string &out) { bool ok = true; if (o.count("args")) for (auto &a : o["args"]) ok = ok && value(a, out); return ok; };
        for (unsigned k = 4 + r.below(10); k > 0; k--)
        {
            V v; bool ok; std::string err; switch (r.below(8))
            {
            case 0: { const auto n = r.pick(cons); if (C.count(n)) break; const auto x = expr(r, C, v, ok, {}); if (v.t == 'v') break; h += " const " + n + "=" + x; err = caught([&] { be.call("applyConstant", n, x); }); VF_CHECK(err.empty() == ok, "constant", h << ": " << err); if (ok) C[n] = v; break; }
            case 1: { const auto n = r.pick(cons); if (!C.count(n)) break; h += " drop " + n; err = caught([&] { be.call("removeConstant", n); }); VF_CHECK(err.empty(), "constant-removal", h << ": " << err); C.erase(n); break; }
            case 2: case 3: { const auto n = r.pick(names); const auto x = expr(r, C, v, ok, cons); h += " prop " + n + "=" + x; Object o; err = caught([&] { o = be.call("evalProperty", n, x).convert<Object>(); }); VF_CHECK(err.empty() == ok, ok ? "property-refused" : "property-accepted", h << ": " << err); if (ok && err.empty()) { VF_CHECK(norm(o) == v.norm(), "property-value", norm(o) << " expected " << v.norm() << " after " << h); P[n] = v; } count("properties"); break; }
            case 4: { const auto n = r.pick(names); if (r.chance(1, 4)) { v.t = 's'; v.s = "throw"; } else if (r.chance(1, 4)) v.t = 'd'; else { v.t = 's'; v.s = "opaque text"; } h += " set " + n + "=" + v.norm(); err = caught([&] { be.call("setProperty", n, Object(v.t == 'd' ? Object(DType("float32")) : Object(v.s))); }); VF_CHECK(err.empty(), "set-property", h << ": " << err); P[n] = v; break; }
            case 5: case 6:
            {
                h += " eval"; std::vector<std::string> want; std::string s; bool good = true, unk = fuzzy(d), ctor = false; good = argsOf(d, s); if (good && s.find("s:throw;") != std::string::npos) good = false; if (good) { want.push_back("new(" + s + ")"); ctor = true; if (d.count("calls")) for (auto &q : d["calls"]) { if (!good) break; unk = unk || fuzzy(q); s.clear(); if (!argsOf(q, s)) good = false; else want.push_back("call " + q["name"].get<std::string>() + "(" + s + ")"); } }
                g_log.clear(); err = caught([&] { be.call("eval", "the id"); }); if (unk) { have = have || false; count("unmodelled"); have = g_log.size() && g_log[0].compare(0, 4, "new(") == 0; break; }
                VF_CHECK(err.empty() == good, good ? "evaluation-refused" : "evaluation-accepted", h << " of " << d.dump() << ": " << err); std::string gl, wl; for (auto &x : g_log) gl += x + " "; for (auto &x : want) wl += x + " "; VF_CHECK(gl == wl, "evaluation-differs", gl << " expected " << wl << " after " << h << " of " << d.dump()); have = ctor; count(good ? "evaluations_ok" : "evaluations_failed");
                if (have && err.empty()) VF_CHECK(be.call("getProxyBlock").call<std::string>("getName") == "the id", "block-id", h); VF_CHECK(g_alive - alive0 == (have ? 1 : 0), "instances", g_alive - alive0 << " after " << h << " of " << d.dump()); break;
            }
            default:
            {
                const std::string n = r.pick(std::vector<std::string>{"one", "two", "three", "four"}); h += " call " + n; bool good = true, unk = false; std::vector<std::string> want; if (d.count("calls")) for (auto &q : d["calls"]) if (q["name"] == n && good) { unk = unk || fuzzy(q); std::string s; if (!have || !argsOf(q, s)) { good = false; break; } want.push_back("call " + n + "(" + s + ")"); }
                g_log.clear(); err = caught([&] { be.call("handleCall", n); }); if (unk) { count("unmodelled"); break; } std::string gl, wl; for (auto &x : g_log) gl += x + " "; for (auto &x : want) wl += x + " "; VF_CHECK(err.empty() == good && gl == wl, "call-differs", gl << " expected " << wl << (good ? "" : "an exception") << " after " << h << " of " << d.dump() << ": " << err); count(good ? "calls_ok" : "calls_failed");
            }
            }
        }
    }
    VF_CHECK(g_alive == alive0, "instances-left", g_alive - alive0); PluginRegistry::remove("/blocks/docs" + path); PluginRegistry::remove("/blocks" + path); distinct(h + d.dump()); sample(d.dump() + h);
}

int main(int argc, char **argv)
{
    initLib(); PluginRegistry::addCall("/framework/conf_loader/vf_record", &recordLoader);
    return run(argc, argv, {{"docs", docsCase}, {"baddocs", badDocsCase}, {"fuzzdocs", fuzzDocsCase}, {"long", longCase}, {"cpp", cppCase}, {"conf", confCase}, {"desc", descCase}, {"eval", evalCase}});
}
