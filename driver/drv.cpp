// Conformance driver: executes scripted calls on the real tinygettext library
// through its public API and prints one JSON object per call with everything
// a caller can observe.  It contains no expectation about any result.
//
//   drv SCRIPT OUT [-1|timeout seconds] [isolate]
//
// SCRIPT: lines; "S <id>" starts a session, each further line is one call.
// A session that kills the process, hangs or lets an exception escape where
// the script runner does not expect one is recorded as {"op":"crash"}.
#include <algorithm>
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <filesystem>
#include <functional>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <locale>
#include <clocale>
#include <set>
#include <unordered_set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <thread>
#include <vector>
#include <cerrno>
#include <csignal>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>
#include <fcntl.h>

#include "tinygettext/tinygettext.hpp"
#include "tinygettext/po_parser.hpp"
#include "tinygettext/iconv.hpp"
#include "tinygettext/log.hpp"
#include "tinygettext/plural_forms.hpp"
#include "tinygettext/file_system.hpp"
#include "tinygettext/unix_file_system.hpp"

#include <iconv.h>
#include <dirent.h>
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#include <sanitizer/allocator_interface.h>
#define HEAP_BYTES() static_cast<long long>(__sanitizer_get_current_allocated_bytes())
#endif
#endif
#ifndef HEAP_BYTES
#define HEAP_BYTES() 0LL
#endif

namespace tgt = tinygettext;

// ---------------------------------------------------------------- resources
// conversion descriptors and file streams that are open now
static std::atomic<long long> g_iconv(0), g_streams(0);
extern "C" {
iconv_t __real_iconv_open(const char*, const char*);
int __real_iconv_close(iconv_t);
iconv_t __wrap_iconv_open(const char* to, const char* from)
{
  iconv_t r = __real_iconv_open(to, from);
  if (r != reinterpret_cast<iconv_t>(-1)) ++g_iconv;
  return r;
}
int __wrap_iconv_close(iconv_t cd) { --g_iconv; return __real_iconv_close(cd); }
}
static long long open_fds()
{
  long long n = 0;
  if (DIR* d = opendir("/proc/self/fd")) { while (readdir(d)) ++n; closedir(d); }
  return n;
}
struct Usage { long long heap = 0, iconv = 0, streams = 0, fds = 0; };
static Usage g_before;
static Usage usage() { Usage u; u.iconv = g_iconv; u.streams = g_streams; u.fds = open_fds(); u.heap = HEAP_BYTES(); return u; }
typedef std::vector<std::string> Strs;

// ---------------------------------------------------------------- output
// not subject to the global locale
struct OSS : std::ostringstream { OSS() { imbue(std::locale::classic()); } };
struct J
{
  OSS o; bool first = true;
  J() { o << "{"; }
  void key(const char* k) { if (!first) o << ","; first = false; o << "\"" << k << "\":"; }
  static void bytes(std::ostream& s, const std::string& v)
  { s << "["; for (size_t i = 0; i < v.size(); ++i) { if (i) s << ","; s << static_cast<int>(static_cast<unsigned char>(v[i])); } s << "]"; }
  static void bytesv(std::ostream& s, const Strs& v)
  { s << "["; for (size_t i = 0; i < v.size(); ++i) { if (i) s << ","; bytes(s, v[i]); } s << "]"; }
  void str(const char* k, const std::string& v) { key(k); o << "\"" << v << "\""; } // plain words only
  void b(const char* k, const std::string& v) { key(k); bytes(o, v); }
  void bv(const char* k, const Strs& v) { key(k); bytesv(o, v); }
  void n(const char* k, long long v) { key(k); o << v; }
  void nv(const char* k, const std::vector<long long>& v)
  { key(k); o << "["; for (size_t i = 0; i < v.size(); ++i) { if (i) o << ","; o << v[i]; } o << "]"; }
  void raw(const char* k, const std::string& v) { key(k); o << v; }
  std::string done() { return o.str() + "}"; }
};

static std::string unhex(const std::string& s)
{
  // "x<hex>"
  std::string r;
  for (size_t i = 1; i + 1 < s.size(); i += 2)
    r += static_cast<char>(std::stoi(s.substr(i, 2), nullptr, 16));
  return r;
}

// ---------------------------------------------------------------- log sinks
struct Msg { int sink; std::string text; };
static thread_local std::vector<Msg> g_msgs;
// what callbacks do besides: calls into the library
static std::function<void()> g_within;
static thread_local bool g_inside = false;
static int g_altered = 0; // messages whose text changed while they were delivered
static void within()
{
  if (!g_within || g_inside) return;
  g_inside = true;
  std::vector<Msg> keep; keep.swap(g_msgs);
  g_within();
  g_msgs.swap(keep);
  g_inside = false;
}
static void sinkA(const std::string& s) { const std::string t = s; within(); if (t != s) ++g_altered; g_msgs.push_back({1, t}); }
static void sinkB(const std::string& s) { const std::string t = s; within(); if (t != s) ++g_altered; g_msgs.push_back({2, t}); }
static void sinkC(const std::string& s) { const std::string t = s; within(); if (t != s) ++g_altered; g_msgs.push_back({3, t}); }
static OSS g_cerr;

static tgt::Log::log_callback_t sink(int i)
{
  switch (i) { case 1: return sinkA; case 2: return sinkB; case 3: return sinkC;
               case 4: return &tgt::Log::default_log_callback; default: return nullptr; }
}

// ---------------------------------------------------------------- locales
// 0: "C"; 1, 2: Turkish and German ones of one byte per character; 3: a C++ locale that groups digits; 4, 5: both;
// 6: a C++ locale with other classes of characters; 7: all
struct Grouping : std::numpunct<char>
{
  char do_thousands_sep() const override { return '.'; }
  char do_decimal_point() const override { return ','; }
  std::string do_grouping() const override { return "\2"; }
  std::string do_truename() const override { return "evet"; }
};
// every printable character is white space, a digit and a letter, and has another case
struct Odd : std::ctype<char>
{
  static const mask* table()
  {
    static mask t[table_size];
    for (size_t i = 0; i < table_size; ++i) t[i] = static_cast<mask>(classic_table()[i] | (i > ' ' && i != 127 ? space | digit | alpha | xdigit | punct : 0));
    return t;
  }
  Odd() : std::ctype<char>(table()) {}
  char do_toupper(char c) const override { return c > ' ' ? '~' : c; }
  char do_tolower(char c) const override { return c > ' ' ? 'x' : c; }
  const char* do_toupper(char* a, const char* b) const override { for (; a != b; ++a) *a = do_toupper(*a); return b; }
  const char* do_tolower(char* a, const char* b) const override { for (; a != b; ++a) *a = do_tolower(*a); return b; }
};
// sorts the other way round, and equal without regard to case
struct Backwards : std::collate<char>
{
  int do_compare(const char* a, const char* b, const char* c, const char* d) const override { const std::string x(a, b), y(c, d); return x < y ? 1 : y < x ? -1 : 0; }
};
static bool use_locale(int k)
{
  std::locale l = k >= 3 && k != 6 ? std::locale(std::locale::classic(), new Grouping) : std::locale::classic();
  if (k >= 6) l = std::locale(std::locale(l, new Odd), new Backwards);
  std::locale::global(l);
  const char* const name = k == 1 || k == 4 || k == 7 ? "tr_TR.ISO-8859-9" : k == 2 || k == 5 ? "de_DE.ISO-8859-1" : "C";
  return setlocale(LC_ALL, name) != nullptr;
}

// set only when it changes: nobody else may
static bool g_pedantic = true;
static void set_pedantic(bool p)
{
  if (p != g_pedantic) tgt::POParser::pedantic = g_pedantic = p;
}

// ---------------------------------------------------------------- wear
// much use of objects of its own
static void wear(int n)
{
  struct Fs : tgt::FileSystem
  {
    std::string text;
    Strs open_directory(const std::string& d) override { if (d == "none") throw std::runtime_error("no such directory"); return {"de.po", "xx.po", "sr.po", "zh_TW.po", "fr.po", "a.txt"}; }
    std::unique_ptr<std::istream> open_file(const std::string& f) override
    {
      if (f.find("fr") != std::string::npos) return nullptr;
      if (f.find("sr") != std::string::npos) throw std::runtime_error("refused");
      return std::unique_ptr<std::istream>(new std::istringstream(text));
    }
  };
  const std::string q = "\"";
  auto header = [&](const char* cs, const char* pl) { return "msgid \"\"\nmsgstr \"\"\n\"Content-Type: text/plain; charset=" + std::string(cs) + "\\n\"\n\"Plural-Forms: " + pl + "\\n\"\n\n"; };
  for (int r = 0; r < n; ++r)
  {
    std::string bad;
    for (int i = 0; i < 60; ++i)
    {
      const std::string k = std::to_string(i % 40);
      bad += "msgid  \"w" + k + "\"\n \"x\"\nmsgstr \"W" + std::to_string(i) + "\" ;\n\n#, fuzzy\nmsgctxt \"c" + k + "\"\nmsgid \"a\"\nmsgid_plural \"as\"\nmsgstr[0] \"\\q\xff\"\nmsgstr[1] \"\"\nmsgstr[2] \"z\"\n\n";
      bad += "junk\n\nmsgid \"never closed\n\nmsgid \"m\"\nmsgid_plural \"ms\"\nmsgstr[x] \"\"\n\nmsgid\n\nmsgid \"e\"\nmsgstr\n\nmsgid \"e" + k + "\"\nmsgstr \"\"\n\n";
    }
    for (const char* cs : {"ISO-8859-1", "BIG5", "UTF-8", "CHARSET", "no-such-charset", "ISO-8859-2"})
      for (int f = 0; f < 2; ++f)
      {
        tgt::Dictionary d, b("ISO-8859-1");
        try
        {
          std::istringstream in(header(cs, f ? "nplurals=2; plural=(n != 1);" : "nplurals=9; plural=n;") + header(cs, "nplurals=1; plural=0;") + bad);
          tgt::POParser::parse("worn.po", in, f ? d : b, f != 0);
        }
        catch (std::exception&) {}
        d.addFallback(&b);
        for (int i = 0; i < 60; ++i)
        {
          const std::string k = std::to_string(i);
          d.add_translation("w" + k, "other"); d.add_translation("c", "w" + k, "ws", Strs{"1", k}); d.add_translation("c", "w", "ws", Strs{k});
          d.translate("w" + k); d.translate("none" + k); d.translate_ctxt("c" + k, "a"); d.translate_plural("w" + k, "ws", i); d.translate_ctxt_plural("c", "w" + k, "ws", i);
        }
        d.foreach([](const std::string&, const Strs&) {}); d.foreach_ctxt([](const std::string&, const std::string&, const Strs&) {});
      }
    for (int i = 0; i < 40; ++i)
    {
      try { tgt::IConv c("UTF-8", i % 2 ? "ISO-8859-1" : "NO-SUCH"); c.convert("\xff\xfe" "abc"); c.convert("caf\xc3\xa9"); c.set_charsets("UTF-8", "none"); } catch (std::exception&) {}
      tgt::PluralForms::from_string("Plural-Forms: nplurals=" + std::to_string(i) + "; plural=n;").get_plural(i);
      tgt::Language::from_name(i % 2 ? "german" : "nothing").str(); tgt::Language::from_env("de_" + std::to_string(i) + ".UTF-8@x"); tgt::Language::from_spec("xx", std::to_string(i));
    }
    for (int i = 0; i < 3; ++i)
    {
      std::unique_ptr<Fs> fs(new Fs);
      fs->text = header("ISO-8859-1", "nplurals=2; plural=(n != 1);") + bad.substr(0, 900);
      tgt::DictionaryManager m(std::move(fs), "ISO-8859-15");
      for (const char* dir : {"d", "e"}) m.add_directory(dir, i != 0);
      for (int j = 0; j < 4; ++j)
        for (const char* l : {"de", "fr_FR", "sr_RS@latin", "zh_TW", "zh_CN", "ja"}) try { m.set_language(tgt::Language::from_name(l)); m.get_dictionary().translate("w0"); m.get_dictionary(tgt::Language::from_env(l)); m.get_languages(); if (i && j == 2) { m.set_use_fuzzy(false); m.set_charset("UTF-8"); m.add_directory("none"); } } catch (std::exception&) {}
    }
  }
}

// ---------------------------------------------------------------- streams
// delivers the content in odd-sized chunks and throws at offset `failat`
struct FaultBuf : std::streambuf
{
  std::string data; long failat; size_t pos = 0; size_t step = 1;
  FaultBuf(const std::string& d, long f) : data(d), failat(f) {}
  int_type underflow() override
  {
    if (gptr() < egptr()) return traits_type::to_int_type(*gptr());
    within();
    if (failat >= 0 && pos >= static_cast<size_t>(failat)) throw std::runtime_error("read failure");
    if (pos >= data.size()) return traits_type::eof();
    size_t n = std::min(step, data.size() - pos);
    if (failat >= 0) n = std::min(n, static_cast<size_t>(failat) - pos);
    step = step * 2 + 1; if (step > 4000) step = 1;
    char* b = &data[pos];
    setg(b, b, b + n);
    pos += n;
    return traits_type::to_int_type(*gptr());
  }
};
struct FaultStream : std::istream
{
  FaultBuf buf;
  FaultStream(const std::string& d, long f, bool x = false) : std::istream(nullptr), buf(d, f)
  { ++g_streams; rdbuf(&buf); if (x) exceptions(std::ios::badbit); }
  ~FaultStream() override { --g_streams; }
};

// streams of different kinds, all giving the text
static std::ostringstream g_tied;

static std::unique_ptr<std::istream> stream_of(int kind, const std::string& text)
{
  std::unique_ptr<std::istream> s;
  switch (kind)
  {
    case 1: s.reset(new std::istringstream(text)); break;
    case 2: // a file
    {
      { std::ofstream o("stream.tmp", std::ios::binary); o << text; }
      s.reset(new std::ifstream("stream.tmp"));
      break;
    }
    case 3: // byte by byte
    {
      struct Bytes : std::streambuf
      {
        std::string d; size_t p = 0;
        Bytes(const std::string& t) : d(t) {}
        int_type underflow() override { if (gptr() < egptr()) return traits_type::to_int_type(*gptr()); if (p >= d.size()) return traits_type::eof(); setg(&d[p], &d[p], &d[p] + 1); ++p; return traits_type::to_int_type(*gptr()); }
      };
      struct S : std::istream { Bytes b; S(const std::string& t) : std::istream(nullptr), b(t) { rdbuf(&b); } };
      s.reset(new S(text));
      break;
    }
    case 4: // not at its beginning
    {
      s.reset(new std::istringstream("msgid \"before\"\nmsgstr \"BEFORE\"\n\n" + text));
      std::string l;
      for (int i = 0; i < 3; ++i) std::getline(*s, l);
      break;
    }
    case 5: // with everything else set about it
      s.reset(new std::istringstream(text));
      s->unsetf(std::ios::skipws); s->setf(std::ios::hex, std::ios::basefield); s->setf(std::ios::boolalpha | std::ios::showbase);
      s->width(3); s->precision(1); s->fill('"');
      s->imbue(std::locale(std::locale::classic(), new Grouping));
      break;
    case 6: // for reading and writing
      s.reset(new std::stringstream(text)); break;
    case 9: // that has failed before
      s.reset(new std::istringstream(text)); s->setstate(std::ios::failbit); break;
    case 10: // that has gone bad before
      s.reset(new std::istringstream(text)); s->setstate(std::ios::badbit); break;
    case 11: // read to its end before
      s.reset(new std::istringstream(text)); while (s->get() != std::char_traits<char>::eof()) {} break;
    case 12: // read up to its end, without having noticed
      s.reset(new std::istringstream(text)); s->ignore(static_cast<std::streamsize>(text.size())); break;
    case 13: // tied to another one
      s.reset(new std::istringstream(text)); s->tie(&g_tied); break;
    case 7: // that throws when it goes bad
      s.reset(new std::istringstream(text)); s->exceptions(std::ios::badbit); break;
    case 8: // unbuffered: no get area
    {
      struct Un : std::streambuf
      {
        std::string d; size_t p = 0;
        Un(const std::string& t) : d(t) {}
        int_type underflow() override { return p < d.size() ? traits_type::to_int_type(d[p]) : traits_type::eof(); }
        int_type uflow() override { return p < d.size() ? traits_type::to_int_type(d[p++]) : traits_type::eof(); }
      };
      struct S : std::istream { Un b; S(const std::string& t) : std::istream(nullptr), b(t) { rdbuf(&b); } };
      s.reset(new S(text));
      break;
    }
    default: s.reset(new FaultStream(text, -1)); break;
  }
  return s;
}

// failures of different types, all with the same text
static const char* const FAILTEXT = "simulated failure";
struct OwnError : std::exception { const char* what() const noexcept override { return FAILTEXT; } };
struct OwnAlloc : std::bad_alloc { const char* what() const noexcept override { return FAILTEXT; } };
[[noreturn]] static void fail_with(char kind)
{
  switch (kind)
  {
    case 'l': throw std::logic_error(FAILTEXT);
    case 'm': throw OwnAlloc();
    case 'o': throw OwnError();
    case 'r': throw std::out_of_range(FAILTEXT);
    case 's': throw std::system_error(std::make_error_code(std::errc::io_error), FAILTEXT);
    default: throw std::runtime_error(FAILTEXT);
  }
}

struct MemFile { std::string name, content; std::string mode; };
struct MemFSData
{
  std::vector<std::string> opened, listed; // names of the files and directories asked for
  std::map<std::string, std::vector<MemFile>> dirs; // listing order = insertion order
  std::map<std::string, int> dirfail;                // listings that still throw; -1: always
  std::map<std::string, char> dirkind;               // what they throw
};
struct MemFS : tgt::FileSystem
{
  std::shared_ptr<MemFSData> d;
  MemFS(std::shared_ptr<MemFSData> d_) : d(d_) {}
  std::vector<std::string> open_directory(const std::string& p) override
  {
    within();
    d->listed.push_back(p);
    int& f = d->dirfail[p];
    if (f != 0) { if (f > 0) --f; fail_with(d->dirkind[p]); }
    std::vector<std::string> r;
    for (auto& x : d->dirs[p]) r.push_back(x.name);
    return r;
  }
  std::unique_ptr<std::istream> open_file(const std::string& fn) override
  {
    within();
    d->opened.push_back(fn);
    size_t k = fn.rfind('/');
    std::string dir = k == std::string::npos ? "" : fn.substr(0, k);
    std::string name = k == std::string::npos ? fn : fn.substr(k + 1);
    for (auto& x : d->dirs[dir])
      if (x.name == name)
      {
        if (x.mode == "null") return std::unique_ptr<std::istream>();
        if (x.mode.compare(0, 5, "throw") == 0) fail_with(x.mode.size() > 5 ? x.mode[5] : ' ');
        if (x.mode == "bad")
        {
          std::unique_ptr<std::istream> s(new FaultStream(x.content, -1));
          s->setstate(std::ios::failbit);
          return s;
        }
        if (x.mode.compare(0, 5, "xfail") == 0)
          return std::unique_ptr<std::istream>(new FaultStream(x.content, std::stol(x.mode.substr(5)), true));
        if (x.mode.compare(0, 4, "fail") == 0)
          return std::unique_ptr<std::istream>(new FaultStream(x.content, std::stol(x.mode.substr(4))));
        return std::unique_ptr<std::istream>(new FaultStream(x.content, -1));
      }
    return std::unique_ptr<std::istream>();
  }
};

// ---------------------------------------------------------------- session
static std::string lang_json(const tgt::Language& l)
{
  J j;
  j.n("def", l ? 1 : 0);
  j.b("l", l.get_language()); j.b("c", l.get_country()); j.b("m", l.get_modifier());
  j.b("str", l.str()); j.b("name", l.get_name()); j.b("loc", l.get_localized_name());
  return j.done();
}

static std::string pos_line(const std::string& fname, const std::string& text)
{
  // "<fname>:<line>: ..." -> line, else 0
  if (text.compare(0, fname.size() + 1, fname + ":") != 0) return "0";
  size_t i = fname.size() + 1, k = i;
  while (k < text.size() && isdigit(static_cast<unsigned char>(text[k]))) ++k;
  if (k == i || k - i > 8 || k >= text.size() || text[k] != ':') return "0";
  return text.substr(i, k - i);
}

// plural rules a program brings along
static unsigned int rule1(int n) { return n < 0 ? 2 : n % 3; }
static unsigned int rule2(int n) { return n < 0 ? 9 : n; }
static unsigned int rule3(int) { return 7; }
static unsigned int rule4(int n) { return n == 1 ? 0 : n < 0 ? 3 : 1 + n % 2; }
static tgt::PluralForms own_rule(int u)
{
  return u == 1 ? tgt::PluralForms(3, rule1) : u == 2 ? tgt::PluralForms(2, rule2) : u == 3 ? tgt::PluralForms(1, rule3) : tgt::PluralForms(4, rule4);
}

struct Session
{
  std::map<int, std::unique_ptr<tgt::Dictionary>> dicts;
  std::map<int, std::unique_ptr<tgt::IConv>> convs;
  std::map<int, tgt::PluralForms> forms;
  std::map<int, std::shared_ptr<MemFSData>> fss;
  std::map<int, std::shared_ptr<MemFSData>> mfs; // of the managers
  std::map<int, std::unique_ptr<tgt::DictionaryManager>> mgrs;
  std::map<const void*, int> ids;
  std::map<int, tgt::Dictionary*> held;
  std::vector<std::vector<std::string>> queries;
  bool logtext = false;
  int armed = 0; // a language chosen within the first callback of the next call
  std::string armed_lang;
  int asks = 0; // a dictionary asked for within it, and the directory that fails from then on
  std::string ask_lang, ask_dir;

  void drop()
  {
    armed = 0; asks = 0; held.clear(); nested.clear(); nested_out.clear(); nested.shrink_to_fit(); mgrs.clear(); convs.clear(); dicts.clear(); forms.clear(); fss.clear(); mfs.clear(); ids.clear(); queries.clear();
    std::vector<Msg>().swap(g_msgs);
    g_cerr.str(std::string());
  }

  std::string run_queries(tgt::Dictionary& d)
  {
    OSS o; o << "[";
    bool first = true;
    for (auto& q : queries)
    {
      if (!first) o << ","; first = false;
      std::string r;
      if (q[0] == "tr") r = d.translate(q[1]);
      else if (q[0] == "trp") r = d.translate_plural(q[1], q[2], std::stoi(q[3]));
      else if (q[0] == "trc") r = d.translate_ctxt(q[1], q[2]);
      else if (q[0] == "trcp") r = d.translate_ctxt_plural(q[1], q[2], q[3], std::stoi(q[4]));
      J::bytes(o, r);
    }
    o << "]";
    return o.str();
  }

  static void dump(J& j, tgt::Dictionary& d)
  {
    std::vector<std::pair<std::string, Strs>> e;
    d.foreach([&](const std::string& id, const Strs& s) { within(); e.push_back({id, s}); });
    std::sort(e.begin(), e.end());
    OSS o; o << "[";
    for (size_t i = 0; i < e.size(); ++i)
    { if (i) o << ","; o << "["; J::bytes(o, e[i].first); o << ","; J::bytesv(o, e[i].second); o << "]"; }
    o << "]";
    j.raw("ent", o.str());
    struct C { std::string c, i; Strs s; bool operator<(const C& x) const { return std::tie(c, i, s) < std::tie(x.c, x.i, x.s); } };
    std::vector<C> c;
    d.foreach_ctxt([&](const std::string& cx, const std::string& id, const Strs& s) { within(); c.push_back({cx, id, s}); });
    std::sort(c.begin(), c.end());
    OSS o2; o2 << "[";
    for (size_t i = 0; i < c.size(); ++i)
    { if (i) o2 << ","; o2 << "["; J::bytes(o2, c[i].c); o2 << ","; J::bytes(o2, c[i].i); o2 << ","; J::bytesv(o2, c[i].s); o2 << "]"; }
    o2 << "]";
    j.raw("ctx", o2.str());
    tgt::PluralForms pf = d.get_plural_forms();
    j.n("np", pf ? static_cast<long long>(pf.get_nplural()) : 0);
    std::vector<long long> v;
    for (int n = 0; n <= 30; ++n) v.push_back(pf.get_plural(n));
    for (int n = 99; n <= 125; ++n) v.push_back(pf.get_plural(n));
    j.nv("pv", v);
  }

  // enumeration with a visitor that counts, looks messages up, and throws at the stop-th (0: never)
  struct Visitor
  {
    int n, stop, odd; tgt::Dictionary* d; std::vector<std::string>* seen;
    void at(const std::string& t) { ++n; seen->push_back(t); if (n == stop) throw OwnError(); }
    static std::string show(const std::string* c, const std::string& i, const Strs& s)
    { OSS o; o << "["; if (c) { J::bytes(o, *c); o << ","; } J::bytes(o, i); o << ","; J::bytesv(o, s); o << "]"; return o.str(); }
    void operator()(const std::string& i, const Strs& s)
    { std::vector<Msg> keep; keep.swap(g_msgs); if (!s.empty() && !s[0].empty() && d->translate(i) != s[0]) ++odd; g_msgs.swap(keep); at(show(nullptr, i, s)); }
    void operator()(const std::string& c, const std::string& i, const Strs& s)
    { std::vector<Msg> keep; keep.swap(g_msgs); if (!s.empty() && !s[0].empty() && d->translate_ctxt(c, i) != s[0]) ++odd; g_msgs.swap(keep); at(show(&c, i, s)); }
  };
  static void each(J& j, tgt::Dictionary& d, int stop)
  {
    for (int k = 1; k <= 2; ++k)
    {
      std::vector<std::string> seen;
      Visitor v = { 0, stop, 0, &d, &seen };
      int thrown = 0, ret = -1, byval = 0;
      // a visitor that takes what it gets by value
      if (k == 1) d.foreach([&](std::string i, Strs s) { ++byval; s.push_back(i); });
      else { std::function<void(std::string, std::string, Strs)> f = [&](std::string c, std::string i, Strs s) { ++byval; s.push_back(c + i); }; d.foreach_ctxt(f); }
      try
      {
        Visitor r = k == 1 ? d.foreach(v) : d.foreach_ctxt(v);
        ret = r.n; v.odd = r.odd + (r.n != byval);
      }
      catch (OwnError&) { thrown = 1; }
      std::sort(seen.begin(), seen.end());
      std::string o;
      for (auto& x : seen) { if (!o.empty()) o += ","; o += x; }
      const std::string s = std::to_string(k);
      j.raw(("seen" + s).c_str(), "[" + o + "]"); j.n(("thrown" + s).c_str(), thrown); j.n(("ret" + s).c_str(), ret); j.n(("odd" + s).c_str(), v.odd);
    }
  }

  static void mode(J& j, const std::string& m)
  {
    if (m.compare(0, 5, "xfail") == 0) { j.str("mode", "xfail"); j.n("at", std::stol(m.substr(5))); }
    else if (m.compare(0, 4, "fail") == 0) { j.str("mode", "fail"); j.n("at", std::stol(m.substr(4))); }
    else j.str("mode", m);
  }

  // the real file system: only below the current (scratch) directory
  static const std::string& scratch(const std::string& p)
  {
    if (p.empty() || p[0] != 'u' || p.find("..") != std::string::npos) _exit(95);
    return p;
  }

  int id_of(const void* p)
  {
    auto it = ids.find(p);
    if (it != ids.end()) return it->second;
    int n = static_cast<int>(ids.size()) + 1;
    ids[p] = n;
    return n;
  }

  void logs(J& j, const std::string& fname)
  {
    if (logtext)
    {
      OSS o; o << "[";
      for (size_t i = 0; i < g_msgs.size(); ++i)
      { if (i) o << ","; o << "[" << g_msgs[i].sink << ","; J::bytes(o, g_msgs[i].text); o << "]"; }
      o << "]";
      j.raw("log", o.str());
      j.b("cerr", g_cerr.str());
      g_cerr.str("");
    }
    else
    {
      long long info = 0; std::string w, e;
      for (auto& m : g_msgs)
      {
        if (m.sink == 1) ++info;
        else if (m.sink == 2) { if (!w.empty()) w += ","; w += pos_line(fname, m.text); }
        else { if (!e.empty()) e += ","; e += pos_line(fname, m.text); }
      }
      j.n("info", info); j.raw("warn", "[" + w + "]"); j.raw("err", "[" + e + "]");
    }
    g_msgs.clear();
  }

  // numbers of messages of this thread
  static void counts(J& j, const std::string&)
  {
    long long n[4] = {0, 0, 0, 0};
    for (auto& m : g_msgs) ++n[m.sink];
    j.n("ni", n[1]); j.n("nw", n[2]); j.n("ne", n[3]);
  }

  static std::map<std::string, std::string>& thrdirs() { static std::map<std::string, std::string> m; return m; }
  static std::string thread_call(const std::pair<std::string, std::string>& k)
  {
    OSS o;
    if (k.first == "env") o << lang_json(tgt::Language::from_env(k.second));
    else if (k.first == "name") o << lang_json(tgt::Language::from_name(k.second));
    else if (k.first == "plural")
    {
      tgt::PluralForms f = tgt::PluralForms::from_string(k.second);
      J j; j.n("def", f ? 1 : 0); j.n("np", f ? f.get_nplural() : 0);
      std::vector<long long> v; for (int i = 0; i < 25; ++i) v.push_back(f.get_plural(i));
      j.nv("v", v); o << j.done();
    }
    else if (k.first == "parse")
    {
      tgt::Dictionary d; std::istringstream in(k.second);
      int exc = 0;
      try { tgt::POParser::parse("FILE", in, d); } catch (std::exception&) { exc = 1; }
      J j; j.n("exc", exc); dump(j, d); counts(j, "FILE"); o << j.done();
    }
    else if (k.first == "latin") // a dictionary in another charset
    {
      tgt::Dictionary d("ISO-8859-1"); std::istringstream in(k.second);
      int exc = 0;
      try { tgt::POParser::parse("FILE", in, d); } catch (std::exception&) { exc = 1; }
      J j; j.n("exc", exc); dump(j, d); counts(j, "FILE"); o << j.done();
    }
    else if (k.first == "conv")
    {
      tgt::IConv c("UTF-8", "ISO-8859-1");
      J j; j.b("r", c.convert(k.second)); counts(j, ""); o << j.done();
    }
    else if (k.first == "fn")
    {
      tgt::DictionaryManager m;
      J j; j.b("r", m.convertFilename2Language(k.second)); o << j.done();
    }
    else if (k.first == "dict") // additions and lookups, k.second is the message
    {
      tgt::Dictionary d;
      d.set_plural_forms(tgt::PluralForms::from_string("Plural-Forms: nplurals=2; plural=(n != 1);"));
      d.add_translation(k.second, k.second + "1");
      d.add_translation(k.second, k.second + "2");
      d.add_translation("c", k.second, "pl", Strs{k.second + "3", k.second + "4"});
      Strs v;
      v.push_back(d.translate(k.second)); v.push_back(d.translate("unknown"));
      v.push_back(d.translate_ctxt("c", k.second)); v.push_back(d.translate_ctxt("d", k.second));
      v.push_back(d.translate_ctxt_plural("c", k.second, "pl", 1)); v.push_back(d.translate_ctxt_plural("c", k.second, "pl", 2));
      v.push_back(d.translate_plural(k.second, "pl", 5));
      J j; j.bv("q", v); dump(j, d); counts(j, ""); o << j.done();
    }
    else if (k.first == "unix") // a real file, prepared before the threads start
    {
      tgt::DictionaryManager m;
      m.add_directory(thrdirs().at(k.second));
      tgt::Dictionary& d = m.get_dictionary(tgt::Language::from_name("de"));
      Strs v; for (auto& l : m.get_languages()) v.push_back(l.str());
      J j; j.b("r", d.translate("a")); dump(j, d); j.bv("langs", v); o << j.done();
    }
    else if (k.first == "mgr" || k.first == "langs")
    {
      auto fs = std::make_shared<MemFSData>();
      fs->dirs["d"].push_back({"de.po", k.second, "ok"});
      fs->dirs["d"].push_back({"fr.po", "", "ok"});
      tgt::DictionaryManager m(std::unique_ptr<tgt::FileSystem>(new MemFS(fs)));
      m.add_directory("d");
      if (k.first == "langs")
      {
        Strs v; for (auto& l : m.get_languages()) v.push_back(l.str());
        std::sort(v.begin(), v.end());
        J j; j.bv("r", v); o << j.done();
      }
      else
      {
        m.set_language(tgt::Language::from_name("german"));
        tgt::Dictionary& d = m.get_dictionary();
        tgt::Dictionary& d2 = m.get_dictionary(tgt::Language::from_name("de"));
        J j; j.b("r", d.translate("a")); dump(j, d2); o << j.done();
      }
    }
    else { fprintf(stderr, "drv: unknown thread call\n"); _exit(97); }
    return o.str();
  }

  // ---- calls made within callbacks
  std::vector<std::pair<std::string, std::string>> nested;
  size_t nested_next = 0, nested_left = 0;
  int nested_mgr = 0;
  std::set<std::string> nested_out;
  void fire()
  {
    const int m = armed;
    armed = 0;
    if (m && mgrs[m]) mgrs[m]->set_language(tgt::Language::from_env(armed_lang));
    const int q = asks;
    asks = 0;
    if (!q || !mgrs[q]) return;
    try
    {
      if (ask_lang.empty()) mgrs[q]->get_dictionary();
      else mgrs[q]->get_dictionary(tgt::Language::from_env(ask_lang));
    }
    catch (std::exception&) {}
    if (!ask_dir.empty() && mfs[q]) mfs[q]->dirfail[ask_dir] = -1;
  }

  void nest()
  {
    if (nested.empty() || nested_left == 0) return;
    --nested_left;
    const size_t i = nested_next++ % nested.size();
    auto& k = nested[i];
    OSS o;
    o << "{\"c\":" << i + 1 << ",\"r\":";
    struct Back { bool p; ~Back() { set_pedantic(p); } } back = { g_pedantic };
    set_pedantic(true);
    if (k.first != "own") { g_msgs.clear(); o << thread_call(k); }
    else if (nested_mgr == 0 || !mgrs[nested_mgr]) return;
    else
    {
      J j;
      try
      {
        tgt::Dictionary& d = k.second.empty() ? mgrs[nested_mgr]->get_dictionary() : mgrs[nested_mgr]->get_dictionary(tgt::Language::from_env(k.second));
        j.raw("r", run_queries(d)); dump(j, d); j.n("exc", 0); j.n("id", id_of(&d));
      }
      catch (std::exception&) { j.n("exc", 1); }
      o << j.done();
    }
    o << "}";
    nested_out.insert(o.str());
  }

  // the real files of "unix" calls
  void prepare(const std::vector<std::pair<std::string, std::string>>& calls)
  {
    for (auto& k : calls)
      if (k.first == "unix" && !thrdirs().count(k.second))
      {
        const std::string dir = "ut" + std::to_string(thrdirs().size());
        std::filesystem::create_directory(scratch(dir));
        std::ofstream(scratch(dir) + "/de.po", std::ios::binary) << k.second;
        thrdirs()[k.second] = dir;
      }
  }

  std::string threads(const std::vector<std::string>& a)
  {
    // thr N REPEAT kind arg [kind arg ...]: every thread performs all calls, starting at call number (thread index)
    int n = std::stoi(a[1]), rep = std::stoi(a[2]);
    std::vector<std::pair<std::string, std::string>> calls;
    for (size_t i = 3; i + 1 < a.size(); i += 2) calls.push_back({a[i], unhex(a[i + 1])});
    prepare(calls);
    std::vector<std::vector<std::string>> out(n);
    std::atomic<int> ready(0);
    std::atomic<bool> go(false);
    std::vector<std::thread> ts;
    for (int t = 0; t < n; ++t)
      ts.emplace_back([&, t] {
        ready++;
        while (!go.load(std::memory_order_acquire)) {}
        for (int r = 0; r < rep; ++r)
          for (size_t c = 0; c < calls.size(); ++c)
          {
            size_t ci = (c + static_cast<size_t>(t) * (rep > 1 ? 1 : 0)) % calls.size();
            auto& k = calls[ci];
            OSS o;
            g_msgs.clear();
            o << thread_call(k);
            g_msgs.clear();
            OSS e; e << "{\"c\":" << ci + 1 << ",\"r\":" << o.str() << "}";
            out[t].push_back(e.str());
          }
      });
    while (ready.load() < n) {}
    go.store(true, std::memory_order_release);
    for (auto& t : ts) t.join();
    OSS o; o << "[";
    for (int t = 0; t < n; ++t)
    {
      if (t) o << ",";
      o << "[";
      for (size_t i = 0; i < out[t].size(); ++i) { if (i) o << ","; o << out[t][i]; }
      o << "]";
    }
    o << "]";
    return o.str();
  }

  // share N REPEAT k a: N threads ask one dictionary (k 0: of the user, 1: kept from a manager) the same questions
  void share(J& j, int n, int rep, tgt::Dictionary& d)
  {
    std::vector<std::set<std::string>> rs(n), pvs(n);
    std::vector<std::set<std::vector<long long>>> told(n);
    std::atomic<int> ready(0);
    std::atomic<bool> go(false);
    std::vector<std::thread> ts;
    const tgt::Dictionary& cd = d;
    auto ask = [&](size_t shift, std::vector<std::string>& got, std::vector<long long>& c) {
      g_msgs.clear();
      for (size_t i = 0; i < queries.size(); ++i)
      {
        const size_t k = (i + shift) % queries.size();
        auto& q = queries[k];
        if (q[0] == "tr") got[k] = cd.translate(q[1]);
        else if (q[0] == "trp") got[k] = cd.translate_plural(q[1], q[2], std::stoi(q[3]));
        else if (q[0] == "trc") got[k] = cd.translate_ctxt(q[1], q[2]);
        else if (q[0] == "trcp") got[k] = cd.translate_ctxt_plural(q[1], q[2], q[3], std::stoi(q[4]));
      }
      for (auto& m : g_msgs) ++c[static_cast<size_t>(m.sink)];
      g_msgs.clear();
    };
    for (int t = 0; t < n; ++t)
      ts.emplace_back([&, t] {
        ready++;
        while (!go.load(std::memory_order_acquire)) {}
        for (int r = 0; r < rep; ++r)
        {
          std::vector<std::string> got(queries.size());
          std::vector<long long> c(5);
          ask(static_cast<size_t>(t) * static_cast<size_t>(r), got, c);
          OSS o; J::bytesv(o, got); rs[t].insert(o.str());
          told[t].insert(c);
          const tgt::PluralForms pf = cd.get_plural_forms();
          OSS v; v << "["; J::bytes(v, cd.get_charset());
          v << "," << (pf ? static_cast<long long>(pf.get_nplural()) : 0) << ",[";
          for (int i = 0; i <= 30; ++i) v << (i ? "," : "") << pf.get_plural(i);
          v << "]]"; pvs[t].insert(v.str());
        }
      });
    while (ready.load() < n) {}
    go.store(true, std::memory_order_release);
    for (auto& t : ts) t.join();
    // afterwards, alone: it is what it was
    OSS n0; std::set<std::string> e1, e2; int n1 = 0, n2 = 0;
    d.foreach([&](const std::string& id, const Strs& f) { OSS e; e << "[[],"; J::bytes(e, id); e << ","; J::bytesv(e, f); e << "]"; e1.insert(e.str()); ++n1; });
    d.foreach_ctxt([&](const std::string& cx, const std::string& id, const Strs& f) { OSS e; e << "["; J::bytesv(e, Strs(1, cx)); e << ","; J::bytes(e, id); e << ","; J::bytesv(e, f); e << "]"; e2.insert(e.str()); ++n2; });
    std::vector<std::set<std::string>> ents{e1, e2};
    n0 << "[" << n1 << "," << e1.size() << "," << n2 << "," << e2.size() << "]";
    j.raw("entn", n0.str());
    auto all = [&](std::vector<std::set<std::string>>& v) {
      std::set<std::string> u; for (auto& x : v) u.insert(x.begin(), x.end());
      std::string o; for (auto& x : u) { if (!o.empty()) o += ","; o += x; }
      return "[" + o + "]"; };
    j.raw("rs", all(rs)); 
    // reports: how many more than alone
    std::vector<std::string> got(queries.size()); std::vector<long long> alone(5);
    ask(0, got, alone);
    std::set<std::string> more;
    for (auto& t : told) for (auto& c : t)
    { OSS m; m << "[" << c[1] - alone[1] << "," << c[2] - alone[2] << "," << c[3] - alone[3] << "]"; more.insert(m.str()); }
    std::vector<std::set<std::string>> m1{more};
    j.raw("told", all(m1)); j.raw("pvs", all(pvs)); j.raw("ents", all(ents));
  }

  // what the file systems were asked for during the call, in order of names
  void asked(J& j)
  {
    if (fss.empty()) return;
    Strs o, l;
    std::set<MemFSData*> all;
    for (auto& f : fss) all.insert(f.second.get());
    for (auto& f : mfs) if (f.second) all.insert(f.second.get());
    for (auto f : all) { o.insert(o.end(), f->opened.begin(), f->opened.end()); l.insert(l.end(), f->listed.begin(), f->listed.end()); }
    std::sort(o.begin(), o.end()); std::sort(l.begin(), l.end());
    j.bv("fo", o); j.bv("fl", l);
  }

  // executes one call; returns the JSON record
  std::string call(const std::vector<std::string>& a)
  {
    J j;
    const std::string& op = a[0];
    j.str("op", op);
    auto I = [&](size_t i) { return std::stoi(a[i]); };
    auto X = [&](size_t i) { return unhex(a[i]); };
    std::string fname = "FILE.po";
    bool log = true;
    g_msgs.clear();
    nested_left = 24; nested_out.clear(); g_altered = 0; nested_mgr = 0;
    for (auto& f : fss) { f.second->opened.clear(); f.second->listed.clear(); }
    for (auto& f : mfs) if (f.second) { f.second->opened.clear(); f.second->listed.clear(); }
    if (op == "get" || op == "cur" || op == "langs") nested_mgr = I(1);
    g_within = nullptr;
    const bool loads = op == "get" || op == "cur" || op == "langs";
    if (loads && (armed || asks)) g_within = [this] { fire(); nest(); };
    else if (!nested.empty()) g_within = [this] { nest(); };
    struct Disarm { int& m; int& q; bool on; ~Disarm() { if (on) m = q = 0; } } disarm = { armed, asks, op != "sw" && op != "ask" };

    if (op == "cb") // cb sev sink
    {
      int s = I(1);
      j.n("sev", s); j.n("sink", I(2));
      if (s == 1) tgt::Log::set_log_info_callback(sink(I(2)));
      else if (s == 2) tgt::Log::set_log_warning_callback(sink(I(2)));
      else tgt::Log::set_log_error_callback(sink(I(2)));
      logtext = true;
    }
    else if (op == "logtext") { logtext = true; log = false; }
    else if (op == "dict") { dicts[I(1)].reset(new tgt::Dictionary(X(2))); j.n("d", I(1)); j.b("cs", X(2)); log = false; }
    else if (op == "parse") // parse d ped failat file [pad name]: behind `pad` empty lines, under a name
    {
      set_pedantic(I(2) != 0);
      std::string file = X(4);
      j.n("d", I(1)); j.n("ped", I(2)); j.n("failat", I(3)); j.b("file", file);
      int failat = I(3);
      if (a.size() > 6)
      {
        const int pad = I(5);
        fname = X(6);
        j.n("pad", pad); j.b("name", fname);
        file.insert(0, static_cast<size_t>(pad), '\n');
        if (failat >= 0) failat += pad;
      }
      FaultStream in(file, failat);
      int exc = 0;
      try { tgt::POParser::parse(fname, in, *dicts[I(1)]); } catch (std::exception&) { exc = 1; }
      set_pedantic(true);
      j.n("exc", exc);
      std::vector<Msg> keep; keep.swap(g_msgs);
      dump(j, *dicts[I(1)]);
      g_msgs.swap(keep);
    }
    else if (op == "parsek") // parsek d kind file: from streams of different kinds
    {
      const std::string file = X(3);
      j.n("d", I(1)); j.n("k", I(2)); j.b("file", file);
      int exc = 0, left = 0;
      {
        std::unique_ptr<std::istream> in = stream_of(I(2), file);
        try { tgt::POParser::parse(fname, *in, *dicts[I(1)]); } catch (std::exception&) { exc = 1; }
        in->exceptions(std::ios::goodbit); in->clear();
        left = in->get() != std::char_traits<char>::eof();
      }
      j.n("exc", exc); if (I(2) < 9 || I(2) > 11) j.n("left", left);
      std::vector<Msg> keep; keep.swap(g_msgs);
      dump(j, *dicts[I(1)]);
      g_msgs.swap(keep);
    }
    else if (op == "each") { each(j, *dicts[I(1)], I(2)); j.n("d", I(1)); j.n("stop", I(2)); log = false; }
    else if (op == "dump") { j.n("d", I(1)); dump(j, *dicts[I(1)]); log = false; }
    else if (op == "tr") { j.n("d", I(1)); j.b("id", X(2)); j.b("r", dicts[I(1)]->translate(X(2))); }
    else if (op == "trp") { j.n("d", I(1)); j.b("id", X(2)); j.b("pl", X(3)); j.n("n", I(4)); j.b("r", dicts[I(1)]->translate_plural(X(2), X(3), I(4))); }
    else if (op == "trc") { j.n("d", I(1)); j.b("cx", X(2)); j.b("id", X(3)); j.b("r", dicts[I(1)]->translate_ctxt(X(2), X(3))); }
    else if (op == "trcp") { j.n("d", I(1)); j.b("cx", X(2)); j.b("id", X(3)); j.b("pl", X(4)); j.n("n", I(5)); j.b("r", dicts[I(1)]->translate_ctxt_plural(X(2), X(3), X(4), I(5))); }
    else if (op == "add") { j.n("d", I(1)); j.b("id", X(2)); j.b("s", X(3)); dicts[I(1)]->add_translation(X(2), X(3)); }
    else if (op == "addp") { Strs s; for (size_t i = 4; i < a.size(); ++i) s.push_back(X(i)); j.n("d", I(1)); j.b("id", X(2)); j.bv("s", s); dicts[I(1)]->add_translation(X(2), X(3), s); }
    else if (op == "addc") { j.n("d", I(1)); j.b("cx", X(2)); j.b("id", X(3)); j.b("s", X(4)); dicts[I(1)]->add_translation(X(2), X(3), X(4)); }
    else if (op == "addcp") { Strs s; for (size_t i = 5; i < a.size(); ++i) s.push_back(X(i)); j.n("d", I(1)); j.b("cx", X(2)); j.b("id", X(3)); j.bv("s", s); dicts[I(1)]->add_translation(X(2), X(3), X(4), s); }
    else if (op == "setplf") { j.n("d", I(1)); j.n("u", I(2)); dicts[I(1)]->set_plural_forms(own_rule(I(2))); log = false; }
    else if (op == "setpl") { j.n("d", I(1)); j.b("h", X(2)); dicts[I(1)]->set_plural_forms(tgt::PluralForms::from_string(X(2))); log = false; }
    else if (op == "fb") { j.n("d", I(1)); j.n("f", I(2)); dicts[I(1)]->addFallback(dicts[I(2)].get()); log = false; }
    else if (op == "charset") { j.n("d", I(1)); j.b("r", dicts[I(1)]->get_charset()); log = false; }

    else if (op == "ic") // ic k from to
    {
      j.n("k", I(1)); j.b("from", X(2)); j.b("to", X(3));
      int exc = 0;
      if (!convs[I(1)]) convs[I(1)].reset(new tgt::IConv());
      try { convs[I(1)]->set_charsets(X(2), X(3)); } catch (std::exception&) { exc = 1; }
      j.n("exc", exc);
    }
    else if (op == "icc") // icc k from to: the constructor
    {
      j.n("k", I(1)); j.b("from", X(2)); j.b("to", X(3));
      int exc = 0;
      convs[I(1)].reset();
      try { convs[I(1)].reset(new tgt::IConv(X(2), X(3))); } catch (std::exception&) { exc = 1; convs[I(1)].reset(new tgt::IConv()); }
      j.n("exc", exc);
    }
    else if (op == "icd") { j.n("k", I(1)); convs.erase(I(1)); }
    else if (op == "cv") { j.n("k", I(1)); j.b("t", X(2)); j.b("r", convs[I(1)]->convert(X(2))); }

    else if (op == "pf")
    {
      j.n("k", I(1)); j.b("h", X(2));
      forms[I(1)] = tgt::PluralForms::from_string(X(2));
      j.n("def", forms[I(1)] ? 1 : 0); j.n("np", forms[I(1)].get_nplural()); log = false;
    }
    else if (op == "pe") // pe k n...
    {
      j.n("k", I(1));
      std::vector<long long> n, v;
      for (size_t i = 2; i < a.size(); ++i) { n.push_back(I(i)); v.push_back(forms[I(1)].get_plural(I(i))); }
      j.nv("n", n); j.nv("v", v); log = false;
    }
    else if (op == "per") // per k lo hi
    {
      j.n("k", I(1)); j.n("lo", I(2)); j.n("hi", I(3));
      std::vector<long long> v;
      for (int n = I(2); ; ++n) { v.push_back(forms[I(1)].get_plural(n)); if (n == I(3)) break; }
      j.nv("v", v); log = false;
    }
    else if (op == "peq") // peq k j
    {
      const tgt::PluralForms &f = forms[I(1)], &g = forms[I(2)];
      j.n("k", I(1)); j.n("j", I(2)); j.n("eq", f == g); log = false;
      j.n("sym", (f == g) == (g == f) && (f != g) != (f == g) && (g != f) != (g == f));
    }
    else if (op == "psweep") // psweep k lo hi step: counts n >= 200 whose form differs from that of 100 + n % 100
    {
      tgt::PluralForms& f = forms[I(1)];
      long long lo = std::stoll(a[2]), hi = std::stoll(a[3]), step = std::stoll(a[4]);
      long long bad = 0, firstbad = -1, cnt = 0;
      unsigned form[100];
      for (int r = 0; r < 100; ++r) form[r] = f.get_plural(100 + r);
      long long r = lo % 100;
      for (long long n = lo; n <= hi; n += step, r = (r + step) % 100)
      {
        ++cnt;
        if (f.get_plural(static_cast<int>(n)) != form[r]) { ++bad; if (firstbad < 0) firstbad = n; }
      }
      j.n("k", I(1)); j.n("bad", bad > 1000000 ? 1000000 : bad); j.n("first", firstbad); j.n("cntm", cnt / 1000000); log = false;
    }

    else if (op == "spec") { j.b("l", X(1)); j.b("c", X(2)); j.b("m", X(3)); j.raw("r", lang_json(tgt::Language::from_spec(X(1), X(2), X(3)))); log = false; }
    else if (op == "env") { j.b("s", X(1)); j.raw("r", lang_json(tgt::Language::from_env(X(1)))); log = false; }
    else if (op == "name") { j.b("s", X(1)); j.raw("r", lang_json(tgt::Language::from_name(X(1)))); log = false; }
    else if (op == "match")
    {
      tgt::Language x = tgt::Language::from_env(X(1)), y = tgt::Language::from_env(X(2));
      j.b("a", X(1)); j.b("b", X(2)); j.n("r", tgt::Language::match(x, y));
      j.n("eq", x == y); j.n("ne", x != y); j.n("lt", x < y); j.n("gt", y < x); log = false;
      j.n("heq", tgt::Language_hash()(x) == tgt::Language_hash()(y));
    }

    else if (op == "keys")
    {
      std::vector<tgt::Language> v;
      Strs s;
      for (size_t i = 1; i < a.size(); ++i)
      {
        s.push_back(X(i));
        const tgt::Language x = tgt::Language::from_env(X(i));
        switch (i % 4) // made in different ways
        {
          case 0: v.push_back(x); break;
          case 1: v.push_back(x ? tgt::Language::from_spec(x.get_language(), x.get_country(), x.get_modifier()) : tgt::Language()); break;
          case 2: { tgt::Language y; y = x; v.push_back(std::move(y)); break; }
          case 3: v.push_back(x ? tgt::Language::from_name(x.str()) : x); break;
        }
      }
      std::set<tgt::Language> byorder(v.begin(), v.end());
      std::unordered_set<tgt::Language, tgt::Language_hash> byhash(v.begin(), v.end());
      std::vector<tgt::Language> byeq;
      for (auto& x : v)
        if (std::find(byeq.begin(), byeq.end(), x) == byeq.end()) byeq.push_back(x);
      long long bad = 0;
      for (auto& x : v)
        for (auto& y : v)
        {
          if ((x == y) == (x != y) || (x == y) != (y == x)) ++bad;
          if ((x < y) + (y < x) != (x == y ? 0 : 1)) ++bad;
          if (x == y && tgt::Language_hash()(x) != tgt::Language_hash()(y)) ++bad;
          if (x == y && (x.str() != y.str() || static_cast<bool>(x) != static_cast<bool>(y))) ++bad;
        }
      for (auto& x : byeq)
        for (auto& y : byeq)
          for (auto& z : byeq)
            if (x < y && y < z && !(x < z)) ++bad;
      j.bv("l", s); j.n("nset", byorder.size()); j.n("nhash", byhash.size()); j.n("neq", byeq.size()); j.n("bad", bad); log = false;
    }
    else if (op == "fs") { fss[I(1)] = std::make_shared<MemFSData>(); j.n("f", I(1)); log = false; }
    else if (op == "put") // put f dir name mode content
    { fss[I(1)]->dirs[X(2)].push_back({X(3), X(5), a[4]}); j.n("f", I(1)); j.b("dir", X(2)); j.b("name", X(3)); mode(j, a[4]); j.b("content", X(5)); log = false; }
    else if (op == "mode") // mode f dir name mode
    { for (auto& x : fss[I(1)]->dirs[X(2)]) if (x.name == X(3)) x.mode = a[4]; j.n("f", I(1)); j.b("dir", X(2)); j.b("name", X(3)); mode(j, a[4]); log = false; }
    else if (op == "dirfail") { fss[I(1)]->dirfail[X(2)] = I(3); if (a.size() > 4) { fss[I(1)]->dirkind[X(2)] = a[4][0]; j.str("kind", a[4]); } j.n("f", I(1)); j.b("dir", X(2)); j.n("n", I(3)); log = false; }
    else if (op == "q")
    {
      std::vector<std::string> q; q.push_back(a[1]);
      for (size_t i = 2; i < a.size(); ++i) q.push_back(a[i][0] == 'x' ? X(i) : a[i]);
      queries.push_back(q);
      j.str("k", a[1]);
      OSS o; o << "["; bool fst = true; std::string num = "0";
      for (size_t i = 1; i < q.size(); ++i)
        if (a[i + 1][0] == 'x') { if (!fst) o << ","; fst = false; J::bytes(o, q[i]); } else num = q[i];
      o << "]";
      j.raw("a", o.str()); j.raw("n", num); log = false;
    }
    else if (op == "mgr") // mgr m f charset | mgr m unix charset
    {
      j.n("m", I(1)); j.b("cs", X(3));
      if (a[2] == "unix") { mfs.erase(I(1)); mgrs[I(1)].reset(new tgt::DictionaryManager(X(3))); j.n("f", 0); }
      else { mfs[I(1)] = fss[I(2)]; mgrs[I(1)].reset(new tgt::DictionaryManager(std::unique_ptr<tgt::FileSystem>(new MemFS(fss[I(2)])), X(3))); j.n("f", I(2)); }
      log = false;
    }
    else if (op == "mdel") { mgrs[I(1)].reset(); j.n("m", I(1)); log = false; }
    else if (op == "adddir") { j.n("m", I(1)); j.b("dir", X(2)); j.n("prec", I(3)); if (I(3)) mgrs[I(1)]->add_directory(X(2), true); else mgrs[I(1)]->add_directory(X(2)); }
    else if (op == "rmdir") { j.n("m", I(1)); j.b("dir", X(2)); mgrs[I(1)]->remove_directory(X(2)); }
    else if (op == "setlang") { j.n("m", I(1)); j.b("s", X(2)); mgrs[I(1)]->set_language(tgt::Language::from_env(X(2))); }
    else if (op == "getlang") { j.n("m", I(1)); j.b("r", mgrs[I(1)]->get_language().str()); log = false; }
    else if (op == "setcs") { j.n("m", I(1)); j.b("cs", X(2)); mgrs[I(1)]->set_charset(X(2)); }
    else if (op == "setfuzzy") { j.n("m", I(1)); j.n("v", I(2)); mgrs[I(1)]->set_use_fuzzy(I(2) != 0); j.n("r", mgrs[I(1)]->get_use_fuzzy() ? 1 : 0); }
    else if (op == "get" || op == "cur") // get m env | cur m
    {
      j.n("m", I(1));
      tgt::Dictionary* d = nullptr;
      int exc = 0, excw = 0;
      if (op == "get") j.b("s", X(2));
      const size_t hi = op == "cur" ? 2 : 3;
      if (a.size() > hi) j.n("h", I(hi));
      try
      {
        d = op == "cur" ? &mgrs[I(1)]->get_dictionary() : &mgrs[I(1)]->get_dictionary(tgt::Language::from_env(X(2)));
      }
      catch (std::exception& e) { exc = 1; excw = std::string(e.what()).find(FAILTEXT) == 0 ? 1 : 2; }
      armed = asks = 0;
      j.n("exc", exc); j.n("excw", excw);
      j.n("open", g_streams);
      std::vector<Msg> keep; keep.swap(g_msgs);
      if (mfs[I(1)]) // the places named in messages: file asked for, line, severity
      {
        std::set<std::string> pl;
        for (auto& m : keep)
          for (auto& fn : mfs[I(1)]->opened)
          {
            const std::string n = pos_line(fn, m.text);
            if (n != "0") { OSS o; o << "["; J::bytes(o, fn); o << "," << n << "," << m.sink << "]"; pl.insert(o.str()); }
          }
        std::string o;
        for (auto& p : pl) { if (!o.empty()) o += ","; o += p; }
        j.raw("places", "[" + o + "]");
      }
      if (a.size() > hi) held[I(hi)] = d; // kept by the user
      if (d) { j.raw("r", run_queries(*d)); dump(j, *d); j.n("id", id_of(d)); j.b("dcs", d->get_charset()); }
      else { j.raw("r", "[]"); j.raw("ent", "[]"); j.raw("ctx", "[]"); j.n("np", 0); j.raw("pv", "[]"); j.n("id", 0); j.raw("dcs", "[]"); }
      g_msgs.swap(keep);
      fname = "";
    }
    else if (op == "held") // held h: the dictionary asked for earlier
    {
      tgt::Dictionary* d = held[I(1)];
      j.n("h", I(1));
      if (!d) { asked(j); return j.done(); }
      j.raw("r", run_queries(*d));
      g_msgs.clear();
      dump(j, *d); j.n("id", id_of(d)); j.b("dcs", d->get_charset()); log = false;
    }
    else if (op == "share")
    {
      j.n("nt", I(1)); j.n("rep", I(2)); j.n("k", I(3)); j.n("a", I(4)); log = false;
      tgt::Dictionary* d = I(3) ? held[I(4)] : dicts[I(4)].get();
      if (d) share(j, I(1), I(2), *d);
      else { j.raw("rs", "[]"); j.raw("told", "[]"); j.raw("pvs", "[]"); }
    }
    // additions of the user to a manager's dictionary: like add..., h instead of d
    else if (op == "hadd") { j.n("h", I(1)); j.b("id", X(2)); j.b("s", X(3)); if (held[I(1)]) held[I(1)]->add_translation(X(2), X(3)); }
    else if (op == "haddcp") { Strs s; for (size_t i = 5; i < a.size(); ++i) s.push_back(X(i)); j.n("h", I(1)); j.b("cx", X(2)); j.b("id", X(3)); j.bv("s", s); if (held[I(1)]) held[I(1)]->add_translation(X(2), X(3), X(4), s); }
    else if (op == "sw") { j.n("m", I(1)); j.b("s", X(2)); armed = I(1); armed_lang = X(2); log = false; }
    else if (op == "ask") { j.n("m", I(1)); j.b("s", X(2)); j.b("dir", X(3)); asks = I(1); ask_lang = X(2); ask_dir = X(3); log = false; }
    else if (op == "repeat") { log = false; }
    else if (op == "reent") // reent kind arg...: what callbacks call from now on
    {
      nested.clear(); nested_next = 0; g_within = nullptr;
      OSS o; o << "[";
      for (size_t i = 1; i + 1 < a.size(); i += 2)
      { nested.push_back({a[i], X(i + 1)}); if (i > 1) o << ","; o << "{\"k\":\"" << a[i] << "\",\"a\":"; J::bytes(o, X(i + 1)); o << "}"; }
      o << "]";
      prepare(nested);
      j.raw("calls", o.str()); log = false;
    }
    else if (op == "wear") { j.n("n", I(1)); g_inside = true; wear(I(1)); g_inside = false; log = false; }
    else if (op == "locale") { j.n("k", I(1)); j.n("have", use_locale(I(1))); log = false; }
    else if (op == "end") // everything is given back; what is left compared with the time before (see main)
    {
      drop();
      Usage u = usage();
      j.n("heap", u.heap - g_before.heap); j.n("iconv", u.iconv - g_before.iconv); j.n("streams", u.streams); j.n("fds", u.fds - g_before.fds);
      g_before = u;
      j.n("asan", HEAP_BYTES() != 0); log = false;
    }
    else if (op == "langs")
    {
      j.n("m", I(1));
      Strs v; int exc = 0, undef = 0, excw = 0;
      try { for (auto& l : mgrs[I(1)]->get_languages()) { v.push_back(l.str()); if (!l) ++undef; } } catch (std::exception& e) { exc = 1; excw = std::string(e.what()).find(FAILTEXT) == 0 ? 1 : 2; v.clear(); }
      std::sort(v.begin(), v.end());
      j.n("exc", exc); j.n("excw", excw); j.bv("r", v); j.n("undef", undef);
    }
    else if (op == "fn") { j.b("s", X(1)); tgt::DictionaryManager m; j.b("r", m.convertFilename2Language(X(1))); log = false; }
    else if (op == "uls")
    {
      j.b("dir", X(1));
      tgt::UnixFileSystem u; Strs v; int exc = 0;
      try { v = u.open_directory(X(1)); } catch (std::exception&) { exc = 1; v.clear(); }
      std::sort(v.begin(), v.end());
      j.n("exc", exc); j.bv("r", v); log = false;
    }
    else if (op == "ucat")
    {
      j.b("path", X(1));
      tgt::UnixFileSystem u; int ok = 0; std::string s;
      try
      {
        std::unique_ptr<std::istream> in = u.open_file(X(1));
        if (in && *in) { ok = 1; OSS o; char c; while (in->get(c)) o << c; s = o.str(); }
      }
      catch (std::exception&) { ok = 2; }
      j.n("ok", ok); j.b("r", s); log = false;
    }
    else if (op == "umk") { j.b("path", X(1)); std::filesystem::create_directory(scratch(X(1))); log = false; }
    else if (op == "uw") { j.b("path", X(1)); j.b("content", X(2)); std::ofstream o(scratch(X(1)), std::ios::binary); o << X(2); log = false; }
    else if (op == "uln") { j.b("path", X(1)); j.b("to", X(2)); std::filesystem::create_symlink(std::filesystem::current_path() / scratch(X(2)), scratch(X(1))); log = false; }
    else if (op == "urm") { j.b("path", X(1)); std::filesystem::remove_all(scratch(X(1))); log = false; }
    else if (op == "thr")
    {
      OSS o; o << "[";
      for (size_t i = 3; i + 1 < a.size(); i += 2)
      { if (i > 3) o << ","; o << "{\"k\":\"" << a[i] << "\",\"a\":"; J::bytes(o, X(i + 1)); o << "}"; }
      o << "]";
      j.raw("calls", o.str());
      j.raw("t", threads(a)); log = false;
    }
    else { fprintf(stderr, "drv: unknown op %s\n", op.c_str()); _exit(97); }

    if (log) logs(j, fname); else g_msgs.clear();
    asked(j);
    if (g_within)
    {
      g_within = nullptr;
      std::string o;
      for (auto& n : nested_out) { if (!o.empty()) o += ","; o += n; }
      j.raw("re", "[" + o + "]");
      j.n("altered", g_altered);
    }
    return j.done();
  }
};

static std::vector<std::string> split(const std::string& s)
{
  std::vector<std::string> r; std::istringstream i(s); std::string w;
  i.imbue(std::locale::classic());
  while (i >> w) r.push_back(w);
  return r;
}

int main(int argc, char** argv)
{
  if (argc < 3) return 98;
  int timeout = argc > 3 ? atoi(argv[3]) : 10;
  bool isolate = argc > 4 && std::string(argv[4]) == "isolate";
  std::ifstream f(argv[1]);
  std::vector<std::pair<std::string, std::vector<std::string>>> sessions;
  std::string line;
  while (std::getline(f, line))
  {
    if (line.compare(0, 2, "S ") == 0) sessions.push_back({line.substr(2), {}});
    else if (!line.empty()) sessions.back().second.push_back(line);
  }
  int out = open(argv[2], O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
  if (out < 0) return 98;
  // progress is shared through a pipe-less counter: the output file itself plus this word
  int pfd[2];
  size_t next = 0;
  int crashes = 0;
  while (next < sessions.size())
  {
    if (pipe(pfd)) return 98;
    pid_t pid = fork();
    if (pid == 0)
    {
      close(pfd[0]);
      std::cerr.rdbuf(g_cerr.rdbuf());
      for (size_t s = next; s < sessions.size(); ++s)
      {
        alarm(timeout);
        tgt::Log::set_log_info_callback(sinkA);
        tgt::Log::set_log_warning_callback(sinkB);
        tgt::Log::set_log_error_callback(sinkC);
        use_locale(0);
        // a session that is repeated runs twice before: whatever is set up once is there then
        if (sessions[s].second[0] == "repeat")
          for (int k = 0; k < 2; ++k)
          {
            Session ses;
            for (auto& l : sessions[s].second) ses.call(split(l));
            tgt::Log::set_log_info_callback(sinkA);
            tgt::Log::set_log_warning_callback(sinkB);
            tgt::Log::set_log_error_callback(sinkC);
          }
        {
          Session ses;
          for (auto& l : sessions[s].second)
          {
            const std::string r = ses.call(split(l));
            const std::string rec = "{\"s\":" + sessions[s].first + ",\"e\":" + r + "}\n";
            if (write(out, rec.data(), rec.size()) != static_cast<ssize_t>(rec.size())) _exit(96);
          }
        }
        alarm(0);
        uint64_t done = s + 1;
        if (write(pfd[1], &done, sizeof done) != sizeof done) _exit(96);
        if (isolate) break;
      }
      _exit(0);
    }
    close(pfd[1]);
    uint64_t d; size_t done = next;
    while (read(pfd[0], &d, sizeof d) == sizeof d) done = d;
    close(pfd[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    if (WIFEXITED(st) && (WEXITSTATUS(st) == 95 || WEXITSTATUS(st) == 96 || WEXITSTATUS(st) == 97)) return WEXITSTATUS(st);
    if (done < sessions.size() && (!isolate || done == next))
    {
      int sig = WIFSIGNALED(st) ? WTERMSIG(st) : 0;
      std::string rec = "{\"s\":" + sessions[done].first + ",\"e\":{\"op\":\"crash\",\"sig\":" + std::to_string(sig) +
        ",\"code\":" + std::to_string(WIFEXITED(st) ? WEXITSTATUS(st) : 0) + "}}\n";
      if (write(out, rec.data(), rec.size()) < 0) return 96;
      done = done + 1;
      crashes += sig == SIGALRM ? 10 : 1;
      if (crashes >= 30) // enough evidence; the rest is recorded as not run
        break;
    }
    next = done;
  }
  return 0;
}
