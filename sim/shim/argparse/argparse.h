// Minimal stand-in for jamolnng/argparse (the repository's submodule is empty in this sandbox).
// Implements only what the slicer front end uses.
#pragma once
#include <iostream>
#include <map>
#include <memory>
#include <optional>
#include <sstream>
#include <string>
#include <vector>
namespace argparse {
class ArgumentParser {
public:
    struct Argument {
        std::vector<std::string> names_v; std::string desc; bool required_ = false;
        bool found = false; std::vector<std::string> values;
        Argument& names(std::vector<std::string> n) { names_v = std::move(n); return *this; }
        Argument& description(std::string d) { desc = std::move(d); return *this; }
        Argument& required(bool r) { required_ = r; return *this; }
    };
    struct Result {
        std::string what;
        explicit operator bool() const { return !what.empty(); }
        friend std::ostream& operator<<(std::ostream& os, const Result& r) { return os << r.what; }
    };
    ArgumentParser(std::string name, std::string desc) : bin_(std::move(name)), desc_(std::move(desc)) {}
    Argument& add_argument() { args_.push_back(std::make_unique<Argument>()); return *args_.back(); }
    void enable_help() { add_argument().names({"-h", "--help"}).description("Shows this page").required(false); }
    void print_help() const {
        std::cout << "Usage: " << bin_ << " [options...]\nOptions:\n";
        for (auto& a : args_) { std::cout << "    "; for (size_t i = 0; i < a->names_v.size(); ++i) std::cout << (i ? ", " : "") << a->names_v[i]; std::cout << "  " << a->desc << "\n"; }
    }
    Result parse(int argc, const char* argv[]) {
        Argument* cur = nullptr;
        for (int i = 1; i < argc; ++i) {
            std::string s = argv[i];
            if (s.empty()) continue;
            if (s[0] == '-' && s.size() > 1 && !(s[1] >= '0' && s[1] <= '9')) {
                cur = find(s);
                if (!cur) return {"Invalid argument: " + s};
                cur->found = true;
            } else {
                if (!cur) return {"Unexpected positional argument: " + s};
                cur->values.push_back(s);
            }
        }
        for (auto& a : args_) if (a->required_ && !a->found) return {"Required argument not found: " + a->names_v[0]};
        return {};
    }
    bool exists(const std::string& n) const { auto a = find(n); return a && a->found; }
    template <class T> T get(const std::string& n) const {
        auto a = find(n);
        std::string v;
        if (a) for (size_t i = 0; i < a->values.size(); ++i) v += (i ? " " : "") + a->values[i];
        if constexpr (std::is_same_v<T, std::string>) return v;
        else { T t{}; std::istringstream in(v); in >> t; return t; }
    }
private:
    static std::string strip(const std::string& s) { size_t i = 0; while (i < s.size() && s[i] == '-' && i < 2) ++i; return s.substr(i); }
    Argument* find(const std::string& n) const {
        for (auto& a : args_) for (auto& m : a->names_v) if (m == n || strip(m) == strip(n)) return a.get();
        return nullptr;
    }
    std::string bin_, desc_;
    std::vector<std::unique_ptr<Argument>> args_;
};
}
