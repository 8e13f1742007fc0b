// C41: the file handlers serve exactly the files below their root, whole, and nothing else.
#include <cstring>
#include <map>
#include <format>
#include <majordomo/Rest.hpp>
#include "pbt.hpp"
namespace rest = opencmw::majordomo::rest;
namespace fs   = std::filesystem;
CMRC_DECLARE(assets);
static const std::map<std::string, std::string> &tree() { // files below the root, by relative path
    static const std::map<std::string, std::string> t = [] {
        std::map<std::string, std::string> r{ { "index.html", "<html>index</html>" }, { "a.txt", "hello" }, { "empty", "" }, { "sub/b.css", "b{}" }, { "sub/deep/c.js", "var c;" }, { "sub/with space.png", std::string("\x89PNG\0\1\2", 7) }, { "dir.html/x.wasm", std::string("\0asm", 4) }, { "..hidden", "dots" }, { "sub/...", "three" } };
        std::string big;
        for (int i = 0; i < 9000; ++i) big += char(i * 7 + i / 256);
        r["big.bin"]      = big;
        r["sub/big2.jpg"] = big.substr(0, 4096) + "jpg";
        r["edge.txt"]     = big.substr(0, 4000); // exactly the threshold
        return r;
    }();
    return t;
}
static const fs::path &scratch() {
    static const fs::path dir = [] {
        char       name[4096];
        const auto base = std::getenv("TMPDIR") ? std::getenv("TMPDIR") : "/tmp";
        std::snprintf(name, sizeof name, "%s/c41-XXXXXX", base);
        if (!mkdtemp(name)) std::abort();
        const fs::path d = name;
        auto put = [&](const fs::path &p, const std::string &c) {
            fs::create_directories(p.parent_path());
            std::ofstream(p, std::ios::binary) << c;
        };
        for (auto &[p, c] : tree()) put(d / "root" / p, c);
        put(d / "secret.txt", "SECRET outside");
        put(d / "root2" / "a.txt", "SECRET sibling");
        put(d / "sub" / "b.css", "SECRET twin");
        return d;
    }();
    return dir;
}
static struct Cleanup {
    pid_t owner = getpid();
    Cleanup() { scratch(); }
    ~Cleanup() {
        if (getpid() == owner) {
            std::error_code e;
            fs::remove_all(scratch(), e);
        }
    }
} cleanup;
static std::string body(pbt::Src &s, const rest::Response &r) {
    if (r.bodyReader) {
        std::string out;
        for (int i = 0; i < 100000; ++i) {
            std::vector<std::uint8_t> buf(1 + s.below(s.coin() ? 8 : 8192));
            const auto                st = r.bodyReader(buf);
            s.check(bool(st), "reading the body fails: ", st ? "" : st.error());
            s.check(st->bytesWritten <= buf.size(), "more bytes than fit");
            out.append(reinterpret_cast<const char *>(buf.data()), st->bytesWritten);
            if (!st->hasMore) return out;
            s.check(st->bytesWritten > 0 || i < 90000, "the body does not end");
        }
    }
    if (r.bodyView.data()) return std::string(reinterpret_cast<const char *>(r.bodyView.data()), r.bodyView.size());
    return std::string(r.body.asString());
}
static std::string mime(const std::string &p) {
    static const std::map<std::string, std::string> m{ { ".html", "text/html" }, { ".css", "text/css" }, { ".js", "application/javascript" }, { ".png", "image/png" }, { ".jpg", "image/jpeg" }, { ".jpeg", "image/jpeg" }, { ".wasm", "application/wasm" } };
    for (auto &[e, t] : m)
        if (p.size() >= e.size() && p.compare(p.size() - e.size(), e.size(), e) == 0) return t;
    return "text/plain";
}
// the file a path names; plain = it needs no interpretation of "." and ".."
struct Resolved {
    bool                     escapes = false, plain = true;
    std::optional<std::string> file;
};
static Resolved resolve(const std::string &p) {
    Resolved                 r;
    std::vector<std::string> parts;
    std::string              cur;
    for (std::size_t i = 0; i <= p.size(); ++i) {
        if (i < p.size() && p[i] != '/') {
            cur += p[i];
            continue;
        }
        if (cur == "..") {
            r.plain = false;
            if (parts.empty()) r.escapes = true;
            else parts.pop_back();
        } else if (cur == ".") r.plain = false;
        else if (!cur.empty()) parts.push_back(cur);
        else if (i) r.plain = false; // empty segment
        cur.clear();
    }
    std::string j;
    for (auto &x : parts) j += (j.empty() ? "" : "/") + x;
    if (!r.escapes && tree().contains(j)) r.file = j;
    return r;
}
static std::string genPath(pbt::Src &s) {
    if (s.chance(1, 3)) {
        auto it = tree().begin();
        std::advance(it, s.below(unsigned(tree().size())));
        std::string p = it->first;
        if (s.chance(1, 4)) p.insert(s.below(unsigned(p.size() + 1)), s.oneOf<std::string>({ "/", "./", "../", "x", ".", "%2e" }));
        return p;
    }
    std::string p;
    for (auto n = s.below(7); n--;) p += s.oneOf<std::string>({ "..", "..", ".", "sub", "deep", "a.txt", "b.css", "secret.txt", "root", "root2", "index.html", "", "%2e%2e", "..hidden", "dir.html", "nothing", "empty", "big.bin" }) + s.oneOf<std::string>({ "/", "/", "/", "", "//" });
    if (s.chance(1, 12)) p += std::string(300 + s.below(5000), 'x');
    if (s.chance(1, 20)) p += "\n\x80\xff";
    return p;
}
PROPERTY(files, 150000, 3000000, "request paths built from the files, directories and dot segments around a scratch root, also overlong and with odd bytes, body read in pieces of random size, with and without mapping; non-trivial = a file is served or the path leaves the root") {
    const auto              thr    = s.coin() ? std::size_t(4000) : std::size_t(1) << 40;
    const std::string       prefix = s.oneOf<std::string>({ "/assets", "/", "", "/assets/" });
    const std::vector<std::pair<std::string, std::string>> extra{ { "cross-origin-opener-policy", "same-origin" }, { "x", "y" } };
    const auto              root = scratch() / (s.coin() ? "root" : "root/");
    const auto              h    = rest::fileSystemHandler("/assets/*", prefix, root, s.coin() ? extra : decltype(extra){}, thr);
    s.check(h.method == "GET" && h.path == "/assets/*", "method or path of the handler");
    bool hit = false;
    for (auto n = 1 + s.below(3); n--;) {
        const auto    rel = genPath(s);
        rest::Request q{ "GET", prefix + (s.coin() ? "/" : "") + rel, {} };
        if (prefix == "" || prefix == "/") q.path = (prefix == "/" ? "/" : s.coin() ? "/" : "") + rel;
        std::string stripped = q.path.starts_with(prefix) ? q.path.substr(prefix.size()) : q.path;
        while (stripped.starts_with("/")) stripped.erase(0, 1);
        const auto want = resolve(stripped);
        s.note("GET ", pbt::show(q.path), want.escapes ? " (leaves the root)" : want.file ? " = " + *want.file : "");
        rest::Response r;
        try {
            r = h.handler(q);
        } catch (const std::exception &e) { s.check(false, "exception for ", pbt::show(q.path), ": ", e.what()); }
        const auto text = body(s, r);
        s.check(text.find("SECRET") == std::string::npos, pbt::show(q.path), " shows a file outside of the root");
        hit |= want.escapes || (want.file && want.plain);
        if (r.code == 200) {
            s.check(bool(want.file), pbt::show(q.path), " is served although there is no such file");
            s.check(text == tree().at(*want.file), "file ", *want.file, " arrives with ", text.size(), " other bytes instead of ", tree().at(*want.file).size());
            std::map<std::string, std::string> hd(r.headers.begin(), r.headers.end());
            s.check(hd["content-length"] == std::to_string(text.size()), "content-length ", hd["content-length"], " for ", text.size(), " bytes");
            s.check(hd["content-type"] == mime(stripped), "content-type ", hd["content-type"], " for ", stripped);
            if (r.headers.size() > 2) s.check(hd["cross-origin-opener-policy"] == "same-origin" && hd["x"] == "y", "extra headers");
            s.check(r.headers.size() == 2 || r.headers.size() == 4, r.headers.size(), " headers");
        } else {
            s.check(!(want.file && want.plain), "file ", want.file ? *want.file : "", " is not served, code ", r.code);
            if (!want.file) s.check(r.code == 404, "code ", r.code, " for ", pbt::show(q.path));
        }
    }
    s.nontrivial(hit);
}
// the same headers whatever the size of the file
PROPERTY(headers, 2000, 20000, "all files with and without extra headers, mapped or streamed; non-trivial = extra headers") {
    auto it = tree().begin();
    std::advance(it, s.below(unsigned(tree().size())));
    const bool with = s.coin();
    s.note(it->first);
    s.nontrivial(with);
    std::vector<std::pair<std::string, std::string>> extra;
    if (with) extra.emplace_back("x-extra", "1");
    const auto h = rest::fileSystemHandler("/f", "/f", scratch() / "root", extra, s.coin() ? 1 : 4000);
    for (int k = 0; k < 2; ++k) {
        const auto r = h.handler({ "GET", "/f/" + it->first, {} });
        s.check(r.code == 200, "code ", r.code);
        bool got = false;
        for (auto &[n, v] : r.headers) got |= n == "x-extra" && v == "1";
        s.check(got == with, "extra headers of ", it->first);
        s.check(body(s, r) == it->second, "content of ", it->first);
    }
}
// resources compiled into the program
PROPERTY(resources, 20000, 300000, "request paths around the resources of an embedded file system; non-trivial = a resource is served") {
    static const bool init = [] {
        for (auto &[p, c] : tree()) cmrc::embedded_filesystem::files()["v/" + p] = c, cmrc::embedded_filesystem::files()["other/" + p] = "SECRET";
        return true;
    }();
    (void) init;
    const auto h   = rest::cmrcHandler("/r/*", "/r", std::make_shared<cmrc::embedded_filesystem>(), "v/");
    const auto rel = genPath(s);
    const auto p   = (s.chance(1, 5) ? "" : "/r") + s.oneOf<std::string>({ "/", "/", "//" }) + rel;
    std::string stripped = p.starts_with("/r") ? p.substr(2) : p;
    while (stripped.starts_with("/")) stripped.erase(0, 1);
    s.note("GET ", pbt::show(p));
    rest::Response r;
    try {
        r = h.handler({ "GET", p, {} });
    } catch (...) { s.check(false, "exception for ", pbt::show(p)); }
    const auto it = tree().find(stripped);
    s.nontrivial(it != tree().end());
    s.check(r.code == (it != tree().end() ? 200 : 404), "code ", r.code, " for ", pbt::show(p));
    if (r.code != 200) return;
    s.check(body(s, r) == it->second, "content of ", stripped);
    std::map<std::string, std::string> hd(r.headers.begin(), r.headers.end());
    s.check(hd["content-length"] == std::to_string(it->second.size()) && hd["content-type"] == mime(stripped), "headers of ", stripped);
}
