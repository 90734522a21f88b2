// Stand-in for boost::program_options: only there so that the main function of the legacy converter compiles (it is never run).
#ifndef PROGRAM_OPTIONS_STUB
#define PROGRAM_OPTIONS_STUB
#include <string>
#include <map>
#include <iostream>
namespace boost { namespace program_options {
struct any_value { template<class T> T as() const { return T(); } };
template<class T> struct typed { typed* default_value(const T&) { return this; } };
template<class T> typed<T>* value() { static typed<T> t; return &t; }
struct adder { adder& operator()(const char*, const char*) { return *this; } template<class T> adder& operator()(const char*, typed<T>*, const char*) { return *this; } };
struct options_description { options_description(const char*) {} adder add_options() { return adder(); } };
inline std::ostream& operator<<(std::ostream& o, const options_description&) { return o; }
struct variables_map : std::map<std::string, any_value> {};
struct positional_options_description { void add(const char*, int) {} };
struct parsed {}; struct unknown_option { const char* what() const { return ""; } };
struct command_line_parser { command_line_parser(int, char**) {} command_line_parser& options(const options_description&) { return *this; } command_line_parser& positional(const positional_options_description&) { return *this; } parsed run() { return parsed(); } };
inline void store(const parsed&, variables_map&) {} inline void notify(variables_map&) {}
} }
#endif
