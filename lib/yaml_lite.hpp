// Reads the subset of YAML the shipped configuration files use into parameters, with the typing rules of rosparam (PyYAML,
// YAML 1.1): the last of duplicate keys wins, anchors are ignored, flow lists hold scalars.
#pragma once
#include <ros/ros.h>

#include <fstream>
#include <regex>
#include <set>

namespace yaml_lite {
inline std::string trim(const std::string& s) {
    const auto a = s.find_first_not_of(" \t\r"), b = s.find_last_not_of(" \t\r");
    return a == std::string::npos ? "" : s.substr(a, b - a + 1);
}
inline std::string uncomment(const std::string& s) {
    char quote = 0;
    for (std::size_t i = 0; i < s.size(); ++i) {
        if (quote) { if (s[i] == quote) quote = 0; }
        else if (s[i] == '"' || s[i] == '\'') quote = s[i];
        else if (s[i] == '#' && (i == 0 || s[i - 1] == ' ' || s[i - 1] == '\t')) return s.substr(0, i);
    }
    return s;
}
inline XmlRpc::XmlRpcValue scalar(const std::string& v) {
    static const std::regex integer("[-+]?(0|[1-9][0-9_]*)"), real("[-+]?([0-9][0-9_]*\\.[0-9_]*([eE][-+][0-9]+)?|\\.[0-9][0-9_]*([eE][-+][0-9]+)?)");
    if (v.size() >= 2 && (v[0] == '"' || v[0] == '\'') && v.back() == v[0]) return XmlRpc::XmlRpcValue(v.substr(1, v.size() - 2));
    if (std::regex_match(v, integer)) return XmlRpc::XmlRpcValue(std::stoi(v));
    if (std::regex_match(v, real)) return XmlRpc::XmlRpcValue(std::stod(v));
    static const std::set<std::string> yes{"true", "True", "TRUE", "yes", "Yes", "on", "On"}, no{"false", "False", "FALSE", "no", "No", "off", "Off"};
    if (yes.count(v)) return XmlRpc::XmlRpcValue(true);
    if (no.count(v)) return XmlRpc::XmlRpcValue(false);
    return XmlRpc::XmlRpcValue(v);
}
struct Line { std::size_t indent; std::string key, value; };

inline XmlRpc::XmlRpcValue block(const std::vector<Line>& l, std::size_t& i, std::size_t indent) {
    XmlRpc::XmlRpcValue out;
    while (i < l.size() && l[i].indent == indent) {
        const Line line = l[i++];
        XmlRpc::XmlRpcValue v;
        if (!line.value.empty()) {
            if (line.value[0] == '[') {
                if (line.value.back() != ']') throw std::runtime_error("list over several lines: " + line.key);
                v.setSize(0);
                std::istringstream is(line.value.substr(1, line.value.size() - 2));
                std::string e;
                int n = 0;
                while (std::getline(is, e, ',')) v[n++] = scalar(trim(e));
            } else {
                v = scalar(line.value);
            }
        } else if (i < l.size() && l[i].indent > indent) {
            v = block(l, i, l[i].indent);
        }
        out[line.key] = XmlRpc::XmlRpcValue();
        out[line.key] = v;
    }
    if (i < l.size() && l[i].indent > indent) throw std::runtime_error("indentation");
    return out;
}
inline XmlRpc::XmlRpcValue load(const std::string& path) {
    std::ifstream f(path);
    if (!f) throw std::runtime_error("cannot read " + path);
    std::vector<Line> lines;
    std::string s;
    while (std::getline(f, s)) {
        const std::string t = uncomment(s), u = trim(t);
        if (u.empty() || u == "---") continue;
        const auto c = u.find(':');
        if (c == std::string::npos) throw std::runtime_error(path + ": not a mapping: " + u);
        std::string v = trim(u.substr(c + 1));
        if (!v.empty() && v[0] == '&') { const auto sp = v.find(' '); v = sp == std::string::npos ? "" : trim(v.substr(sp)); }
        std::string key = trim(u.substr(0, c));
        if (key.size() >= 2 && (key[0] == '"' || key[0] == '\'')) key = key.substr(1, key.size() - 2);
        lines.push_back({t.find_first_not_of(' '), key, v});
    }
    std::size_t i = 0;
    XmlRpc::XmlRpcValue out = block(lines, i, lines.empty() ? 0 : lines[0].indent);
    if (i != lines.size()) throw std::runtime_error(path + ": indentation");
    return out;
}
// Sets every value, at every depth, under the prefix; structs are also set whole. Returns the names of the leaves.
inline void set(const std::string& name, const XmlRpc::XmlRpcValue& v, std::vector<std::string>* leaves = nullptr) {
    if (v.getType() == XmlRpc::XmlRpcValue::TypeStruct) {
        for (auto it = v.begin(); it != v.end(); ++it) set(name + "/" + it->first, it->second, leaves);
        shim::set_param(name, v);
        return;
    }
    shim::set_param(name, v);
    if (leaves) leaves->push_back(name);
}
inline void load_into(const std::string& ns, const std::string& path, std::vector<std::string>* leaves = nullptr) {
    const XmlRpc::XmlRpcValue v = load(path);
    for (auto it = v.begin(); it != v.end(); ++it) set(ns + "/" + it->first, it->second, leaves);
}
}
