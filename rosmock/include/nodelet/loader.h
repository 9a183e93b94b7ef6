#pragma once
#include <map>
#include <string>
#include <vector>
namespace nodelet {
typedef std::map<std::string, std::string> M_string;
typedef std::vector<std::string> V_string;
class Loader {
 public:
  bool load(const std::string&, const std::string&, const M_string&, const V_string&) { return true; }
};
}
