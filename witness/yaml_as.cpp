// Instantiates the conversions of document nodes that the library offers.
#include "Yaml.hpp"
namespace witness {
int as_int(const Yaml::Node &n) { return n.As<int>(); }
double as_double(const Yaml::Node &n) { return n.As<double>(); }
bool as_bool(const Yaml::Node &n) { return n.As<bool>(); }
std::string as_string(const Yaml::Node &n) { return n.As<std::string>(); }
int as_int_or(const Yaml::Node &n, const int &d) { return n.As<int>(d); }
double as_double_or(const Yaml::Node &n, const double &d) { return n.As<double>(d); }
bool as_bool_or(const Yaml::Node &n, const bool &d) { return n.As<bool>(d); }
std::string as_string_or(const Yaml::Node &n, const std::string &d) { return n.As<std::string>(d); }
}
