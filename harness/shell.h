// How /bin/sh reads a command line: into words, when nothing in it means more than a word.
#pragma once
#include <string>
#include <vector>

struct Shell {
    std::vector<std::string> words;
    std::string trouble;                                 // what the shell would do beyond running one command
    bool read(const std::string& c) {
        auto bad = [&](const std::string& why) { trouble = why; return false; };
        auto expands = [&](size_t i) {                   // a $ at i
            char d = i + 1 < c.size() ? c[i + 1] : ' ';
            return isalnum((unsigned char)d) || strchr("_{(@*#?$!-\"'", d) != nullptr;
        };
        std::string w;
        bool in = false;
        for (size_t i = 0; i < c.size(); ++i) {
            char x = c[i];
            if (x == '\'') {
                size_t e = c.find('\'', i + 1);
                if (e == std::string::npos) return bad("a ' is not closed");
                w += c.substr(i + 1, e - i - 1);
                i = e; in = true;
            } else if (x == '"') {
                in = true;
                for (++i;; ++i) {
                    if (i >= c.size()) return bad("a \" is not closed");
                    if (c[i] == '"') break;
                    if (c[i] == '`') return bad("a command within ``");
                    if (c[i] == '$' && c[i + 1] != '"' && c[i + 1] != '\'' && expands(i)) return bad("an expansion of $");
                    if (c[i] == '\\' && i + 1 < c.size() && strchr("$`\"\\\n", c[i + 1])) { ++i; if (c[i] != '\n') w += c[i]; continue; }
                    w += c[i];
                }
            } else if (x == ' ' || x == '\t') {
                if (in) words.push_back(w);
                w.clear(); in = false;
            } else if (strchr(";&|<>()\n`", x)) return bad(std::string("an unquoted ") + (x == '\n' ? "newline" : std::string(1, x)));
            else if (strchr("*?[", x)) return bad(std::string("an unquoted ") + x);
            else if (x == '$' && expands(i)) return bad("an expansion of $");
            else if ((x == '#' || x == '~') && !in) return bad(std::string("an unquoted ") + x);
            else if (x == '\\') { if (++i >= c.size()) return bad("a \\ at the end"); if (c[i] != '\n') w += c[i], in = true; }
            else { w += x; in = true; }
        }
        if (in) words.push_back(w);
        return true;
    }
};

// A curl command line.
struct Curl {
    std::string method, url, data, login, trouble;
    std::vector<std::string> headers;
    bool hasData = false, silent = false;
    bool read(const std::vector<std::string>& w) {
        auto bad = [&](const std::string& why) { trouble = why; return false; };
        if (w.empty() || (w[0] != "curl" && w[0] != "/usr/bin/curl")) return bad("it does not run curl");
        for (size_t i = 1; i < w.size(); ++i) {
            auto& a = w[i];
            if (a.empty() || a[0] != '-') { if (!url.empty()) return bad("two urls: " + url + " and " + a); url = a; if (url.empty()) return bad("an empty url"); continue; }
            if (a == "-s" || a == "-S" || a == "-sS" || a == "--silent") { silent = true; continue; }
            if (a == "-G") continue;
            if (a.size() < 2 || !strchr("HXdu", a[1])) return bad("the option " + a);
            std::string v;
            if (a.size() > 2) v = a.substr(2);
            else { if (++i >= w.size()) return bad("nothing follows " + a); v = w[i]; }
            if (a[1] == 'H') headers.push_back(v);
            if (a[1] == 'X') method = v;
            if (a[1] == 'u') login = v;
            if (a[1] == 'd') { if (hasData) return bad("two bodies"); if (!v.empty() && v[0] == '@') return bad("it sends the file " + v.substr(1)); hasData = true; data = v; }
        }
        if (url.empty()) return bad("no url");
        if (url.find_first_of("[]{}") != std::string::npos) return bad("curl takes the url for a pattern");
        for (unsigned char c : url) if (c <= ' ' || c == 127) return bad("curl refuses the url");
        if (method.empty()) method = hasData ? "POST" : "GET";
        return true;
    }
    bool hasHeader(const std::string& part) const { for (auto& h : headers) if (h.find(part) != std::string::npos) return true; return false; }
};
// How curl ends when something goes wrong.
inline int curlTrouble(int k) {
    static const int codes[] = {7, 28, 52, 56, 18, 6, 23};
    if (k >= 7) return k == 7 ? 9 : 13 << 0;             // killed
    return codes[k] << 8;
}
inline bool validUtf8(const std::string& s) {
    for (size_t i = 0; i < s.size();) {
        unsigned char c = s[i];
        int n = c < 0x80 ? 0 : c >= 0xc2 && c < 0xe0 ? 1 : c >= 0xe0 && c < 0xf0 ? 2 : c >= 0xf0 && c < 0xf5 ? 3 : -1;
        if (n < 0 || i + n >= s.size()) return false;
        for (int k = 1; k <= n; ++k) if (((unsigned char)s[i + k] & 0xc0) != 0x80) return false;
        unsigned char d = n ? s[i + 1] : 0;
        if ((c == 0xe0 && d < 0xa0) || (c == 0xed && d >= 0xa0) || (c == 0xf0 && d < 0x90) || (c == 0xf4 && d >= 0x90)) return false;
        i += n + 1;
    }
    return true;
}
