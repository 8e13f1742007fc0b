// stand-in for the generated resource-compiler header: the harnesses pass their own in-memory file systems
#ifndef VERIF_CMRC_SHIM
#define VERIF_CMRC_SHIM
#include <map>
#include <string>
#include <system_error>
namespace cmrc {
class file {
    const char *_begin = nullptr, *_end = nullptr;
public:
    using iterator = const char *;
    using const_iterator = const char *;
    file() = default;
    file(const char *b, const char *e) : _begin(b), _end(e) {}
    iterator begin() const noexcept { return _begin; }
    iterator cbegin() const noexcept { return _begin; }
    iterator end() const noexcept { return _end; }
    iterator cend() const noexcept { return _end; }
    std::size_t size() const { return std::size_t(_end - _begin); }
};
class embedded_filesystem {
public:
    static std::map<std::string, std::string> &files() {
        static std::map<std::string, std::string> f;
        return f;
    }
    bool exists(const std::string &p) const { return files().contains(p); }
    bool is_file(const std::string &p) const { return files().contains(p); }
    file open(const std::string &p) const {
        auto it = files().find(p);
        if (it == files().end()) throw std::system_error(std::make_error_code(std::errc::no_such_file_or_directory), p);
        return { it->second.data(), it->second.data() + it->second.size() };
    }
};
} // namespace cmrc
#define CMRC_DECLARE(libid) namespace cmrc { namespace libid { inline cmrc::embedded_filesystem get_filesystem() { return {}; } } } static_assert(true, "")
#endif
