// A stand-in for the text files the converters read and write: a file is a list of tokens (numbers, words, white space).
// Reading follows the rules of iostreams: white space is skipped, a read at the end fails, sets eof and leaves the variable
// alone, a number that ends the file sets eof, a character does not; getline reads up to the end of the line.
#ifndef TEXTFILE_H
#define TEXTFILE_H
#include <map>
#include <string>
#include <vector>
#include <iostream>
#include <fstream>
#include <iomanip>
#include <type_traits>
namespace textfile {
enum Kind { INT, NUM, WORD, BLANK, LINE };
struct Tok { Kind k; size_t u; double d; std::string w; };
inline Tok tok(Kind k) { Tok t; t.k = k; t.u = 0; t.d = 0; return t; }
typedef std::vector<Tok> File;
inline std::map<std::string, File>& files() { static std::map<std::string, File> f; return f; }
struct In { // reading
  File f; size_t p; bool open_, end, failed; In() : p(0), open_(false), end(false), failed(false) {}
  void open(const std::string& n) { std::map<std::string, File>::iterator i = files().find(n); open_ = i != files().end(); if (open_) f = i->second; else failed = true; p = 0; }
  void close() { open_ = false; }
  bool at() { while (!failed && p < f.size() && (f[p].k == BLANK || f[p].k == LINE)) ++p; if (failed) return false; if (p >= f.size()) { end = failed = true; return false; } return true; }
  template<class T> void number(T& v) { if (!at()) return; if (f[p].k == INT) v = (T)f[p].u; else if (f[p].k == NUM && !std::is_integral<T>::value) v = (T)f[p].d; else { failed = true; v = T(); return; } if (++p == f.size()) end = true; }
  void word(char& c) { if (!at()) return; if (f[p].k != WORD || f[p].w.size() != 1) { failed = true; return; } c = f[p++].w[0]; }
  void line(std::string& s) { if (failed) return; s.clear(); if (p >= f.size()) { end = failed = true; return; } for (; p < f.size() && f[p].k != LINE; ++p) if (f[p].k == WORD) s += f[p].w; else if (f[p].k == BLANK) s += ' '; if (p < f.size()) ++p; else end = true; }
  void bytes(char* c, size_t n) { for (; n > 0; --n, ++c, ++p) { if (failed || p >= f.size()) { end = failed = true; return; } *c = (char)f[p].u; } }
};
struct Out { File* f; Out() : f(NULL) {} void open(const std::string& n) { f = &files()[n]; f->clear(); } void put(const Tok& t) { if (f) f->push_back(t); } };
}
namespace std {
struct sym_ifstream { textfile::In in; sym_ifstream() {} explicit sym_ifstream(const string& n, ios::openmode = ios::in) { in.open(n); } void open(const char* n) { in.open(n); } bool is_open() const { return in.open_; } bool eof() const { return in.end; } void close() { in.close(); } bool fail() const { return in.failed; } bool good() const { return !in.failed && !in.end; } explicit operator bool() const { return !in.failed; } bool operator!() const { return in.failed; }
  template<class T> sym_ifstream& operator>>(T& v) { in.number(v); return *this; } sym_ifstream& operator>>(char& c) { in.word(c); return *this; } sym_ifstream& read(char* c, size_t n) { in.bytes(c, n); return *this; } };
inline sym_ifstream& getline(sym_ifstream& s, string& l) { s.in.line(l); return s; }
struct sym_ofstream { textfile::Out o; sym_ofstream() {} explicit sym_ofstream(const string& n) { o.open(n); } void open(const char* n) { o.open(n); } bool is_open() const { return o.f != NULL; } void close() { o.f = NULL; }
  sym_ofstream& operator<<(const char* s) { for (; *s; ++s) { if (*s == ' ' || *s == '\t') o.put(textfile::tok(textfile::BLANK)); else if (*s == '\n') o.put(textfile::tok(textfile::LINE)); else { textfile::Tok t = textfile::tok(textfile::WORD); for (; *s && *s != ' ' && *s != '\n' && *s != '\t'; ++s) t.w += *s; --s; o.put(t); } } return *this; }
  sym_ofstream& operator<<(const string& s) { return *this << s.c_str(); }
  sym_ofstream& operator<<(char c) { char s[2] = {c, 0}; return *this << (const char*)s; }
  sym_ofstream& operator<<(double v) { textfile::Tok t = textfile::tok(textfile::NUM); t.d = v; o.put(t); return *this; }
  template<class T> typename enable_if<is_integral<T>::value, sym_ofstream&>::type operator<<(T v) { textfile::Tok t = textfile::tok(textfile::INT); t.u = v; o.put(t); return *this; }
  sym_ofstream& operator<<(ostream& (*)(ostream&)) { o.put(textfile::tok(textfile::LINE)); return *this; } // endl
  template<class T> typename enable_if<!is_integral<T>::value && !is_floating_point<T>::value, sym_ofstream&>::type operator<<(const T&) { return *this; } }; // setprecision
}
#endif
