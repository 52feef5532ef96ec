// Stand-in for the option parser: which options are present, and their texts, come from the harness
// (vf_opt_text; NULL = absent). Everything else keeps the documented interface.
#pragma once
#include <cstdlib>
#include <exception>
#include <memory>
#include <string>
#include <vector>
#include "vf.h"
extern "C" const char* vf_opt_text(const char* name);
namespace cxxopts {
class OptionException : public std::exception { public: std::string m; OptionException(const std::string& s) : m(s) { } const char* what() const noexcept { return m.c_str(); } };
typedef OptionException OptionSpecException; typedef OptionException OptionParseException;
inline void vf_parse(const std::string& t, std::string& v) { v = t; }
inline void vf_parse(const std::string&, bool& v) { v = true; }
inline void vf_parse(const std::string& t, double& v) { v = strtod(t.c_str(), NULL); }
template <class T> inline void vf_parse(const std::string& t, T& v) { v = (T)strtoul(t.c_str(), NULL, 10); }
struct Value { std::string text; bool set = false; virtual void parse(const std::string& t) = 0; virtual bool takes_arg() const { return true; } virtual ~Value() { } };
template <class T> struct standard_value : Value { T own; T* to; standard_value() : own(), to(&own) { } standard_value(T* p) : own(), to(p) { } void parse(const std::string& t) override { vf_parse(t, *to); set = true; } };
template <class T> std::shared_ptr<Value> value() { return std::make_shared<standard_value<T>>(); }
template <class T> std::shared_ptr<Value> value(T& t) { return std::make_shared<standard_value<T>>(&t); }
struct OptionDetails { std::string name; std::shared_ptr<Value> v; int n = 0; int count() const { return n; } template <class T> const T& as() const { return *static_cast<standard_value<T>*>(v.get())->to; } };
class Options {
    std::vector<OptionDetails> o; std::vector<std::string> pos; OptionDetails* find(const std::string& n) { for (auto& q : o) if (q.name == n) return &q; return NULL; }
public:
    struct Adder { Options& p; Adder& operator()(const std::string& opts, const std::string&, std::shared_ptr<Value> v = std::make_shared<standard_value<bool>>(), std::string = "") { OptionDetails d; size_t c = opts.find(','); d.name = c == std::string::npos ? opts : opts.substr(opts.find_first_not_of(' ', c + 1)); d.v = v; p.o.push_back(d); return *this; } };
    Options(std::string, std::string = "") { }
    Options& positional_help(std::string) { return *this; } Adder add_options(std::string = "") { return Adder{*this}; }
    void parse_positional(std::string s) { pos.push_back(s); } void parse_positional(std::vector<std::string> v) { pos = v; }
    void parse(int& argc, char**& argv) { for (int i = 1; i < argc && (size_t)(i - 1) < pos.size(); i++) { OptionDetails* d = find(pos[i - 1]); if (!d) throw OptionException("option " + pos[i - 1] + " does not exist"); d->v->parse(argv[i]); d->n++; } for (auto& q : o) { const char* t = vf_opt_text(q.name.c_str()); if (t) { q.v->parse(t); q.n++; } } argc = 1; }
    int count(const std::string& n) { OptionDetails* d = find(n); return d ? d->n : 0; }
    const OptionDetails& operator[](const std::string& n) { OptionDetails* d = find(n); if (!d || !d->n) throw OptionException("option " + n + " not present"); return *d; }
    std::string help(const std::vector<std::string>& = {""}) const { return "help"; }
};
}
