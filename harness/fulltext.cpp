// The full-text adapters against a simulated shell, curl and Elasticsearch.
#include "sim.h"
#include "proc.h"
#include "common/base/Base.h"
#include "shell.h"
#include "common/plugin/fulltext/elasticsearch/ESGraphAdapter.h"
#include "common/plugin/fulltext/elasticsearch/ESStorageAdapter.h"

using namespace sim;
namespace ft = nebula::plugin;
using folly::dynamic;

namespace {
const size_t kMax = 256;                                 // MAX_INDEX_TYPE_LENGTH
struct Doc { std::string column, value; };
using Key = std::tuple<std::string, int32_t, std::string, std::string>;     // index, part, column, value up to kMax bytes

// What a thread has asked for, and what became of it.
struct Ask {
    enum { PUT, BULK, SEARCH, CREATE, DROP, EXISTS } kind;
    std::string host, login, index;
    int port = 0;
    std::vector<ft::DocItem> items;
    int type = 0, timeout = 0, rows = 0;                 // of a search
    std::string op; dynamic fuzz = nullptr;
    int asked = 0;                                       // commands run
    bool applied = false, trouble = false, answer = false;
    std::vector<std::string> hits;
};
struct World {
    std::map<std::string, std::map<std::string, Doc>> es;         // index -> id -> document
    std::map<Key, Doc> model;
    std::map<int, Ask*> asks;                            // by thread
    int errorRate = 0;
};
World* W_;

std::string cut(const std::string& v) {                  // what of a value is indexed
    if (v.size() <= kMax) return v;
    size_t n = kMax;
    while (n > kMax - 3 && ((unsigned char)v[n] & 0xc0) == 0x80) --n;
    return v.substr(0, n);
}
bool indexName(const std::string& n) {
    if (n.empty() || n.size() > 255 || strchr("-_+", n[0]) || n == "." || n == "..") return false;
    for (unsigned char c : n) if (isupper(c) || c < 33 || strchr("\\/*?\"<>| ,#:", c)) return false;
    return validUtf8(n);
}
std::string decode(const std::string& s) {
    std::string o;
    for (size_t i = 0; i < s.size(); ++i) {
        if (s[i] != '%') { o += s[i]; continue; }
        if (i + 2 >= s.size() || !isxdigit((unsigned char)s[i + 1]) || !isxdigit((unsigned char)s[i + 2])) return "%bad%";
        o += (char)strtol(s.substr(i + 1, 2).c_str(), nullptr, 16);
        i += 2;
    }
    return o;
}
std::string err(int code, const char* what) { return folly::toJson(dynamic::object("error", dynamic::object("type", what)("reason", "because"))("status", code)); }

// The answer to a request that came whole.
std::string serve(Ask& a, const Curl& c) {
    auto& w = *W_;
    std::string head = "http://" + a.host + ":" + std::to_string(a.port) + "/";
    SIM_CHECK(c.url.compare(0, head.size(), head) == 0, "a request for %s:%d went to %s", a.host.c_str(), a.port, c.url.c_str());
    std::string login = c.login;
    if (!a.login.empty() && login == a.login + ":") login = a.login;
    SIM_CHECK(login == a.login, "the login sent is '%s', not '%s'", c.login.c_str(), a.login.c_str());
    std::string path = c.url.substr(head.size()), query;
    size_t q = path.find('?');
    if (q != std::string::npos) { query = path.substr(q + 1); path = path.substr(0, q); }
    SIM_CHECK(path.find('#') == std::string::npos, "the path %s has a fragment", path.c_str());
    auto parts = [&] { std::vector<std::string> v; size_t b = 0; for (;;) { size_t e = path.find('/', b); v.push_back(decode(path.substr(b, e == std::string::npos ? e : e - b))); if (e == std::string::npos) return v; b = e + 1; } }();
    SIM_CHECK(a.kind == Ask::BULK ? c.hasHeader("application/x-ndjson") : !c.hasData || c.hasHeader("application/json"), "the request does not say what it sends");
    auto parse = [&](const std::string& s, dynamic* d) { if (!validUtf8(s)) return false; try { *d = folly::parseJson(s); return true; } catch (std::exception&) { return false; } };
    // a document, compared with the one asked for
    auto store = [&](const ft::DocItem& item, const std::string& index, const std::string& id, const dynamic& d, bool* created) {
        SIM_CHECK(index == item.index, "a document for index '%s' went to '%s'", item.index.c_str(), index.c_str());
        SIM_CHECK(!id.empty() && id.size() <= 512, "a document id of %zu bytes", id.size());
        SIM_CHECK(d.isObject() && d.size() == 2 && d.count("column_id") && d.count("value"), "a document of other fields: %s", folly::toJson(d).c_str());
        std::string want = cut(item.val);
        SIM_CHECK(d["value"].isString() && d["value"].getString() == want, "a value of %zu bytes was sent as one of %zu", item.val.size(), d["value"].isString() ? d["value"].getString().size() : 0);
        Doc doc{d["column_id"].getString(), want};
        *created = w.es[index].emplace(id, doc).second;
        w.es[index][id] = doc;
        w.model[Key(item.index, item.part, item.column, item.val.substr(0, kMax))] = doc;
    };
    a.applied = true;
    if (a.kind == Ask::PUT) {
        SIM_CHECK(c.method == "PUT" && parts.size() == 3 && parts[1] == "_doc" && query.empty(), "a put became %s %s", c.method.c_str(), c.url.c_str());
        SIM_CHECK(a.items[0].index == parts[0], "a put for index '%s' went to '%s'", a.items[0].index.c_str(), parts[0].c_str());
        if (!indexName(parts[0])) return err(400, "invalid_index_name_exception");
        dynamic d = nullptr;
        if (!parse(c.data, &d)) {
            SIM_CHECK(!validUtf8(cut(a.items[0].val)), "a put of a proper value sent a body that Elasticsearch refuses: %s", c.data.c_str());
            count("refused_utf8");
            return err(400, "mapper_parsing_exception");
        }
        bool created;
        store(a.items[0], parts[0], parts[2], d, &created);
        a.answer = true;
        return folly::toJson(dynamic::object("_index", parts[0])("_id", parts[2])("_version", 1)("result", created ? "created" : "updated")("_shards", dynamic::object("total", 2)("successful", 1)("failed", 0)));
    }
    if (a.kind == Ask::BULK) {
        SIM_CHECK(c.method == "POST" && path == "_bulk" && query.empty(), "a bulk became %s %s", c.method.c_str(), c.url.c_str());
        SIM_CHECK(!c.data.empty() && c.data.back() == '\n', "a bulk does not end with a newline");
        std::vector<std::string> lines;
        std::istringstream is(c.data);
        std::string l;
        while (std::getline(is, l)) if (!l.empty()) lines.push_back(l);
        SIM_CHECK(lines.size() == 2 * a.items.size(), "a bulk of %zu items has %zu lines", a.items.size(), lines.size());
        bool errors = false;
        dynamic res = dynamic::array();
        for (size_t i = 0; i < a.items.size(); ++i) {
            dynamic m = nullptr, d = nullptr;
            auto& it = a.items[i];
            if (!parse(lines[2 * i], &m)) { SIM_CHECK(!validUtf8(it.index), "a bulk for a proper index sent a line that Elasticsearch refuses"); return err(400, "parse_exception"); }
            SIM_CHECK(m.isObject() && m.size() == 1 && m.count("index") && m["index"].size() == 2, "a bulk line %s", lines[2 * i].c_str());
            std::string index = m["index"]["_index"].getString();
            bool created = false, fine = true;
            if (!parse(lines[2 * i + 1], &d)) { SIM_CHECK(!validUtf8(cut(it.val)), "a bulk with a proper value sent a line that Elasticsearch refuses: %s", lines[2 * i + 1].c_str()); fine = false; }
            else { SIM_CHECK(index == it.index, "a bulk for index '%s' went to '%s'", it.index.c_str(), index.c_str()); fine = indexName(index); }
            if (fine && w.errorRate && fault("es_item_error", w.errorRate, 16)) { fine = false; a.trouble = true; }
            if (fine) store(it, index, m["index"]["_id"].getString(), d, &created);
            errors |= !fine;
            res.push_back(dynamic::object("index", fine ? dynamic(dynamic::object("_index", index)("status", 200)("result", created ? "created" : "updated")) : dynamic(dynamic::object("_index", index)("status", 429)("error", dynamic::object("type", "x")))));
        }
        a.answer = !errors;
        return folly::toJson(dynamic::object("took", 3)("errors", errors)("items", res));
    }
    if (a.kind == Ask::SEARCH) {
        auto& it = a.items[0];
        SIM_CHECK(c.method == "GET" && parts.size() == 2 && parts[1] == "_search", "a search became %s %s", c.method.c_str(), c.url.c_str());
        SIM_CHECK(parts[0] == it.index, "a search in index '%s' went to '%s'", it.index.c_str(), parts[0].c_str());
        SIM_CHECK(query == "timeout=" + std::to_string(a.timeout) + "ms", "a search with timeout %d ms asked with '%s'", a.timeout, query.c_str());
        dynamic d = nullptr;
        if (!parse(c.data, &d)) { SIM_CHECK(!validUtf8(it.val), "a search for a proper text sent a body that Elasticsearch refuses: %s", c.data.c_str()); return err(400, "parsing_exception"); }
        try {
            SIM_CHECK(d["size"].getInt() == a.rows && d["from"].getInt() == 0 && d["_source"].getString() == "value", "a search for %d rows asks for other ones: %s", a.rows, c.data.c_str());
            auto& must = d["query"]["bool"]["must"];
            SIM_CHECK(must.isArray() && must.size() == 2, "a search with %zu conditions", must.size());
            std::string col = must[0]["term"]["column_id"].getString();
            for (auto& m : w.model) if (std::get<2>(m.first) == it.column) SIM_CHECK(m.second.column == col, "a search in column '%s' looks into another one", it.column.c_str());
                                    else SIM_CHECK(m.second.column != col, "a search in column '%s' looks into '%s'", it.column.c_str(), std::get<2>(m.first).c_str());
            static const char* names[] = {"prefix", "wildcard", "regexp", "match"};
            const dynamic& cond = must[1][names[a.type]]["value"];
            std::string text = a.type == 3 ? cond["query"].getString() : cond.getString();
            SIM_CHECK(text == it.val, "a search for %zu bytes asks for %zu", it.val.size(), text.size());
            if (a.type == 3) SIM_CHECK(cond["operator"].getString() == a.op && cond["fuzziness"] == a.fuzz, "a fuzzy search asks %s", c.data.c_str());
        } catch (std::exception& e) { violation("a search of other form: %s (%s)", c.data.c_str(), e.what()); }
        auto i = w.es.find(it.index);
        if (i == w.es.end()) return err(404, "index_not_found_exception");
        dynamic hits = dynamic::array();
        for (auto& e : i->second) {
            if ((int)a.hits.size() >= a.rows) break;
            if (!choose(sim::W, 3)) continue;
            if (choose(sim::W, 12) == 1) { hits.push_back(dynamic::object("_id", "foreign")("_source", dynamic::object("other", 1))); continue; }     // somebody else's document
            if (choose(sim::W, 12) == 1) { hits.push_back(dynamic::object("_id", "bare")); continue; }
            hits.push_back(dynamic::object("_index", it.index)("_id", e.first)("_score", 1.5)("_source", dynamic::object("value", e.second.value)));
            a.hits.push_back(e.second.value);
        }
        a.answer = true;
        return folly::toJson(dynamic::object("took", 2)("timed_out", false)("hits", dynamic::object("total", dynamic::object("value", (int64_t)hits.size()))("hits", hits))("profile", std::string(choose(sim::W, 6) == 1 ? choose(sim::W, 7000) : 0, 'p')));
    }
    std::string index;
    if (a.kind == Ask::EXISTS) {
        SIM_CHECK(c.method == "GET" && parts.size() == 3 && parts[0] == "_cat" && parts[1] == "indices" && query == "format=json", "the question for an index became %s %s", c.method.c_str(), c.url.c_str());
        index = parts[2];
    } else {
        SIM_CHECK(c.method == (a.kind == Ask::CREATE ? "PUT" : "DELETE") && parts.size() == 1 && query.empty(), "creating or dropping an index became %s %s", c.method.c_str(), c.url.c_str());
        index = parts[0];
    }
    SIM_CHECK(index == a.index, "what was meant for index '%s' went to '%s'", a.index.c_str(), index.c_str());
    bool there = w.es.count(index);
    if (a.kind == Ask::EXISTS) {
        a.answer = there;
        if (!there) return choose(sim::W, 2) ? err(404, "index_not_found_exception") : "[]";
        return folly::toJson(dynamic::array(dynamic::object("health", "green")("status", "open")("index", index)("docs.count", "3")));
    }
    if (a.kind == Ask::CREATE) {
        if (!indexName(index)) return err(400, "invalid_index_name_exception");
        if (there) return err(400, "resource_already_exists_exception");
        w.es[index];
        a.answer = true;
        return folly::toJson(dynamic::object("acknowledged", true)("shards_acknowledged", true)("index", index));
    }
    if (!there) return err(404, "index_not_found_exception");
    w.es.erase(index);
    for (auto i = w.model.begin(); i != w.model.end();) i = std::get<0>(i->first) == index ? w.model.erase(i) : std::next(i);
    a.answer = true;
    return "{\"acknowledged\":true}";
}
bool run(const std::string& cmd, std::string* out, int* status) {
    NoPreempt np;
    auto i = W_->asks.find(tid());
    SIM_CHECK(i != W_->asks.end() && i->second, "a command nobody asked for: %s", cmd.c_str());
    Ask& a = *i->second;
    SIM_CHECK(a.asked++ == 0, "one request ran a second command: %s", cmd.c_str());
    Shell sh;
    SIM_CHECK(sh.read(cmd), "the shell would find %s in: %s", sh.trouble.c_str(), cmd.c_str());
    Curl c;
    SIM_CHECK(c.read(sh.words), "%s: %s", c.trouble.c_str(), cmd.c_str());
    *status = 0;
    int rate = W_->errorRate;
    if (rate && fault("curl_before", rate, 32)) { a.trouble = true; *status = curlTrouble(choose(F, 9)); out->clear(); return true; }
    if (rate && fault("es_busy", rate, 32)) { a.trouble = true; static const char* bad[] = {"<html>502 Bad Gateway</html>", "", "null", "[]", "{}", "\"ok\"", "true", "{\"error\":\"busy\",\"status\":503}",
        "{\"result\":\"noop\",\"_id\":\"1\"}", "{\"result\":\"not_found\"}", "{\"acknowledged\":false}", "{\"errors\":true,\"items\":[]}", "{\"took\":1}", "[{\"status\":\"red\"}]", "{\"hits\":7}", "{\"acknowledged\":\"true\"}", "{\"errors\":\"false\"}"}; *out = bad[choose(F, 17)]; return true; }
    *out = serve(a, c);
    if (rate && fault("curl_after", rate, 32)) {         // the request was served, its answer does not come (whole)
        a.trouble = true;
        if (choose(F, 2)) out->resize(choose(F, (uint32_t)out->size() + 1));
        *status = curlTrouble(choose(F, 9));
    }
    return true;
}
std::string text(int most) {
    static const char* bits[] = {"a", "Z", "'", "\"", "\\", "$", "`", "\n", "\t", "$(x)", "%", "\xc3\xa9", "\xe4\xb8\xad", "\xf0\x9f\x98\x80", " ", "*", ";", "@", "/", "?", "\x7f", "{", "&#"};
    std::string s;
    int style = choose(sim::W, 5);
    int n = choose(sim::W, 4) == 1 ? (int)kMax - 6 + (int)choose(sim::W, 12) : choose(sim::W, 6) == 1 ? choose(sim::W, most) : choose(sim::W, 12);
    const char* same = bits[choose(sim::W, 23)];
    while ((int)s.size() < n) s += style == 0 ? bits[choose(sim::W, 23)] : style == 1 ? bits[11 + choose(sim::W, 3)] : style == 2 ? same : "x";
    if (choose(sim::W, 20) == 1) s += "\xff";
    if (choose(sim::W, 30) == 1) s += '\0';
    if (choose(sim::W, 4) == 1) s += bits[choose(sim::W, 23)];
    return s;
}
}  // namespace

SIM_SCENARIO(fulltext) {
    static World w;
    W_ = &w;
    if (faultsOn()) {
        static const uint32_t r[] = {0, 4000, 12000};
        for (auto* f : {"popen_fail", "pclose_fail", "read_fail", "short_read"}) setFaultRate(f, r[choose(sim::W, 3)]);
        w.errorRate = choose(sim::W, 3) * 4;
    }
    onPopen(run);
    std::vector<std::string> indexes = {"nebula_index_1", "nebula_2"}, columns = {"column_1", "column_2", "a'b$c"};
    static std::vector<std::string> place;               // the last document's
    auto* values = new std::vector<std::string>();
    static const char* odd[] = {"nebula_$home", "nebula_'q'", "nebula_`id`", "nebula_\xe4\xb8\xad", "nebula_a;b&c", "nebula_{x}[1]", "nebula_50%25", "nebula_!x(y)", "nebula_+=@~"};
    indexes.push_back(odd[choose(sim::W, 9)]);
    std::string user, pass;
    if (choose(sim::W, 2)) {
        static const char* names[] = {"elastic", "o'neil", "a b", "$user", "x;y", "\"q\"", "-u"};
        user = names[choose(sim::W, 7)];
        static const char* passes[] = {"", "secret", "p'w", "a$b!c", "`x`", "a:b", "x y;z|w", "\\\"*"};
        pass = passes[choose(sim::W, 8)];
    }
    std::string host = choose(sim::W, 2) ? "10.1.2.3" : "es.example.com";
    int port = 9200;
    ft::HttpClient client(nebula::HostAddr(host, port), user, pass);
    int nt = 1 + choose(sim::W, 3), each = 2 + choose(sim::W, 8);
    auto body = [&] {
        for (int k = 0; k < each; ++k) {
            Ask a;
            a.host = host; a.port = port; a.login = pass.empty() || user.empty() ? user : user + ":" + pass;
            a.index = indexes[choose(sim::W, indexes.size())];
            auto value = [&] {                           // often nearly one there was
                NoPreempt np;
                std::string v;
                if (!values->empty() && choose(sim::W, 2)) {
                    v = (*values)[choose(sim::W, values->size())];
                    size_t at = v.empty() ? 0 : choose(sim::W, 3) ? v.size() - 1 - choose(sim::W, v.size() < 6 ? v.size() : 6) : choose(sim::W, v.size());
                    if (!v.empty() && (unsigned char)v[at] < 0x80) v[at] = ">?>?x"[choose(sim::W, 5)];
                } else v = text(600);
                values->push_back(v);
                return v;
            };
            auto item = [&] {
                std::string v = value();
                NoPreempt np;
                if (place.empty() || choose(sim::W, 2)) place = {indexes[choose(sim::W, indexes.size())], columns[choose(sim::W, 3)], std::to_string(choose(sim::W, 8) == 1 ? 2147483647 - choose(sim::W, 2) : choose(sim::W, 12) + 100000000 * choose(sim::W, 2))};
                return ft::DocItem(place[0], place[1], (int32_t)atoll(place[2].c_str()), v);
            };
            uint64_t f0;
            { NoPreempt np; w.asks[tid()] = &a; f0 = faultCount("popen_fail") + faultCount("pclose_fail") + faultCount("read_fail"); }
            std::vector<std::string> rows;
            std::string before;
            nebula::StatusOr<bool> r = false;
            switch (choose(sim::W, 6)) {
            case 0: a.kind = Ask::PUT; a.items.emplace_back(item()); r = ft::ESStorageAdapter::kAdapter->put(client, a.items[0]); break;
            case 1: { a.kind = Ask::BULK; int n = choose(sim::W, 5); for (int i = 0; i < n; ++i) a.items.emplace_back(item()); r = ft::ESStorageAdapter::kAdapter->bulk(client, a.items); break; }
            case 2: {
                a.kind = Ask::SEARCH; a.items.emplace_back(item());
                a.timeout = 10 + choose(sim::W, 3) * 1000; a.rows = choose(sim::W, 4) ? 100 : 1 + choose(sim::W, 3);
                a.type = choose(sim::W, 4);
                ft::LimitItem lim(a.timeout, a.rows);
                auto& g = *ft::ESGraphAdapter::kAdapter;
                if (a.type == 3) { if (choose(sim::W, 2)) a.fuzz = "AUTO"; else a.fuzz = (int64_t)choose(sim::W, 3); a.op = choose(sim::W, 2) ? "and" : "or"; }
                r = a.type == 0 ? g.prefix(client, a.items[0], lim, rows) : a.type == 1 ? g.wildcard(client, a.items[0], lim, rows) : a.type == 2 ? g.regexp(client, a.items[0], lim, rows) : g.fuzzy(client, a.items[0], lim, a.fuzz, a.op, rows);
                break;
            }
            case 3: a.kind = Ask::CREATE; r = ft::ESGraphAdapter::kAdapter->createIndex(client, a.index); break;
            case 4: a.kind = Ask::DROP; r = ft::ESGraphAdapter::kAdapter->dropIndex(client, a.index); break;
            case 5: a.kind = Ask::EXISTS; r = ft::ESGraphAdapter::kAdapter->indexExists(client, a.index); break;
            }
            NoPreempt np;
            w.asks[tid()] = nullptr;
            bool trouble = a.trouble || faultCount("popen_fail") + faultCount("pclose_fail") + faultCount("read_fail") > f0;
            static const char* kn[] = {"put", "bulk", "search", "creation of an index", "drop of an index", "question for an index"};
            bool yes = r.ok() && r.value();
            if (a.kind == Ask::BULK && a.items.empty()) { SIM_CHECK(yes && !a.asked, "a bulk of nothing failed or asked something"); continue; }
            if (yes) {
                SIM_CHECK(a.applied && a.answer, "a %s was reported done that Elasticsearch %s", kn[a.kind], a.applied ? "refused" : "never saw");
                if (a.kind == Ask::SEARCH) SIM_CHECK(rows == a.hits, "a search with %zu hits returned %zu rows%s", a.hits.size(), rows.size(), rows.size() == a.hits.size() ? ", other ones" : "");
                count(kn[a.kind]);
            } else {
                SIM_CHECK(trouble || (a.applied && !a.answer), "a %s failed although nothing went wrong: %s", kn[a.kind], r.ok() ? "false" : r.status().toString().c_str());
                if (!trouble) SIM_CHECK(r.ok(), "a %s that Elasticsearch refused was not answered", kn[a.kind]);
                count("failed");
            }
            // each different value of each column and partition is a document of its own
            size_t docs = 0;
            for (auto& x : w.es) docs += x.second.size();
            SIM_CHECK(docs == w.model.size(), "%zu values were stored as %zu documents", w.model.size(), docs);
        }
    };
    std::vector<std::thread> ts;
    for (int t = 0; t < nt; ++t) ts.emplace_back(body);
    for (auto& t : ts) t.join();
    SIM_CHECK(popenUnwaited() == 0, "%d commands were not waited for", popenUnwaited());
}
