#ifndef SIMVNX_URL_H
#define SIMVNX_URL_H
#include <map>
#include <string>
#include <vector>
#include <utility>
// minimal stand-in for vnx-addons' bundled url library (only used to print urls)
namespace Url {
struct KeyVal { std::string k, v; };
class Url {
public:
	Url(const std::string& s) : text(s) {}
	Url& setQuery(const std::vector<KeyVal>& q) { auto p = text.find('?'); if(q.empty() && p != std::string::npos) text.resize(p); return *this; }
	std::string str() const { return text; }
private:
	std::string text;
};
}
#endif
