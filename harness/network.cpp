// What NetworkUtils says about the host, over simulated devices, resolvers,
// socket tables and commands.
#include "sim.h"
#include "simfs.h"
#include "proc.h"
#include "common/base/Base.h"
#include <arpa/inet.h>
#include <ifaddrs.h>
#include <netdb.h>
#include <netinet/in.h>
#include "common/network/NetworkUtils.h"

namespace sim { uint32_t faultRate(const char*); }
using namespace sim;
using nebula::HostAddr;
using nebula::network::NetworkUtils;

namespace {
struct Dev { std::string name; int family; uint32_t ip; };   // family 0: no address
struct Net {
    std::vector<Dev> devs;
    std::string hostname;
    std::map<std::string, std::vector<Dev>> names;       // what a name resolves to, in order
    std::set<uint16_t> used;
    int low = 0, high = 0;
    std::string range;                                   // as the kernel prints it
    int lists = 0, infos = 0;
};
Net* N;
std::string dotted(uint32_t ip) { char b[32]; snprintf(b, sizeof b, "%u.%u.%u.%u", ip >> 24, ip >> 16 & 255, ip >> 8 & 255, ip & 255); return b; }
uint32_t anyIp() { return choose(sim::W, 4) == 1 ? 0x7f000001u : choose(sim::W, 6) == 1 ? 0xffffffffu - choose(sim::W, 2) : choose(sim::W, 8) == 1 ? 0 : 0x0a000000u + choose(sim::W, 70000) * 257; }
struct List { struct ifaddrs ifa; struct sockaddr_storage ss; char name[32]; };
struct Info { struct addrinfo ai; struct sockaddr_storage ss; };
void fill(sockaddr_storage& ss, const Dev& d) {
    memset(&ss, 0xa5, sizeof ss);
    ss.ss_family = d.family;
    if (d.family == AF_INET) ((sockaddr_in*)&ss)->sin_addr.s_addr = htonl(d.ip);
}
bool fails(const char* n) { uint32_t r = faultRate(n); return r && fault(n, r, 65536); }
}  // namespace

extern "C" {
int getifaddrs(struct ifaddrs** out) noexcept {
    yieldPoint();
    if (fails("getifaddrs_fail")) { errno = choose(F, 2) ? EMFILE : ENOMEM; return -1; }
    NoPreempt np;
    *out = nullptr;
    for (size_t i = N->devs.size(); i-- > 0;) {
        auto* l = (List*)calloc(1, sizeof(List));
        strcpy(l->name, N->devs[i].name.c_str());
        l->ifa.ifa_name = l->name;
        fill(l->ss, N->devs[i]);
        l->ifa.ifa_addr = N->devs[i].family ? (sockaddr*)&l->ss : nullptr;
        l->ifa.ifa_next = *out;
        *out = &l->ifa;
    }
    ++N->lists;
    return 0;
}
void freeifaddrs(struct ifaddrs* p) noexcept {
    yieldPoint();
    NoPreempt np;
    --N->lists;
    while (p) { auto* n = p->ifa_next; free(p); p = n; }
}
int gethostname(char* b, size_t n) noexcept {
    yieldPoint();
    if (fails("gethostname_fail")) { errno = EFAULT; return -1; }
    if (N->hostname.size() >= n) { memcpy(b, N->hostname.data(), n); errno = ENAMETOOLONG; return -1; }
    strcpy(b, N->hostname.c_str());
    return 0;
}
int getaddrinfo(const char* host, const char* service, const struct addrinfo*, struct addrinfo** out) {
    yieldPoint();
    if (choose(sim::W, 3) == 1) sleepNs(1000000 * choose(sim::W, 50));
    if (fails("dns_fail")) { int k = choose(F, 3); return k == 0 ? EAI_AGAIN : k == 1 ? EAI_FAIL : EAI_MEMORY; }
    NoPreempt np;
    SIM_CHECK(host && !service, "the resolver was asked for something else than a host");
    auto i = N->names.find(host);
    if (i == N->names.end()) return EAI_NONAME;
    *out = nullptr;
    for (size_t k = i->second.size(); k-- > 0;) {
        auto* a = (Info*)calloc(1, sizeof(Info));
        fill(a->ss, i->second[k]);
        a->ai.ai_family = i->second[k].family; a->ai.ai_socktype = SOCK_STREAM;
        a->ai.ai_addr = (sockaddr*)&a->ss; a->ai.ai_addrlen = a->ai.ai_family == AF_INET ? sizeof(sockaddr_in) : sizeof(sockaddr_in6);
        a->ai.ai_next = *out;
        *out = &a->ai;
    }
    if (!*out) return EAI_NODATA;
    ++N->infos;
    return 0;
}
void freeaddrinfo(struct addrinfo* p) noexcept {
    yieldPoint();
    NoPreempt np;
    --N->infos;
    while (p) { auto* n = p->ai_next; free(p); p = n; }
}
}

SIM_SCENARIO(network_utils) {
    fsInit(); fsProcNet();
    N = new Net();
    auto& net = *N;
    if (faultsOn()) {
        static const uint32_t r[] = {0, 3000, 12000};
        for (auto* f : {"getifaddrs_fail", "gethostname_fail", "dns_fail", "popen_fail", "pclose_fail", "read_fail", "short_read", "open_fail", "stat_fail"}) setFaultRate(f, r[choose(sim::W, 3)]);
    }
    static const char* dn[] = {"lo", "eth0", "eth1", "tun0", "bond0", "any"};
    for (int i = choose(sim::W, 7); i > 0; --i) net.devs.push_back({dn[choose(sim::W, 5)], choose(sim::W, 5) == 1 ? 0 : choose(sim::W, 2) ? AF_INET : choose(sim::W, 2) ? AF_INET6 : AF_PACKET, anyIp()});
    net.hostname = std::string(choose(sim::W, 5) == 1 ? choose(sim::W, 300) : 1 + choose(sim::W, 12), 'h');
    static const char* hn[] = {"one", "two", "three.example", "nowhere"};
    for (int i = 0; i < 3; ++i) { auto& v = net.names[hn[i]]; for (int k = choose(sim::W, 5); k > 0; --k) v.push_back({"", choose(sim::W, 3) ? AF_INET : choose(sim::W, 3) ? AF_INET6 : AF_UNIX, anyIp()}); }
    // the socket tables, as Linux prints them
    for (auto* d : {"/sim/proc", "/sim/proc/net", "/sim/proc/sys", "/sim/proc/sys/net", "/sim/proc/sys/net/ipv4"}) fsMkdir(d);
    int crowd = choose(sim::W, 3) * choose(sim::W, 5);
    static const int lows[] = {32768, 1024, 1025, 1026, 1027, 1030, 10000, 49152, 2000};
    net.low = lows[choose(sim::W, 9)];
    net.high = choose(sim::W, 3) ? 60999 : 65535;
    int room = net.low < 1027 ? 65535 : net.low;         // a port there must be one free, as a pair
    for (auto* f : {"tcp", "tcp6", "udp", "udp6", "raw", "raw6"}) {
        bool six = strchr(f, '6');
        if (six && choose(sim::W, 4) == 1) continue;     // a host without IPv6
        std::string t = std::string("  sl  local_address                         ") + (six ? "remote_address                        " : "rem_address   ") + "st tx_queue rx_queue tr tm->when retrnsmt   uid  timeout inode\n";
        for (int i = choose(sim::W, crowd + 2), k = 0; i > 0; --i, ++k) {
            int port = f[0] == 'r' ? (choose(sim::W, 2) ? 1 : 58) : choose(sim::W, 3) == 1 && room < 4000 ? 1028 + choose(sim::W, room - 1000) : choose(sim::W, 2) ? 1 + choose(sim::W, 65535) : 9000 + choose(sim::W, 800);
            net.used.insert(port);
            uint32_t peer = choose(sim::W, 2) ? 0 : 1 + choose(sim::W, 65535);
            char b[400];
            std::string a = dotted(anyIp()), zero(six ? 32 : 8, '0'), hex(six ? 32 : 8, 'F');
            snprintf(b, sizeof b, "%4d: %s:%04X %s:%04X %02X 00000000:00000000 00:00000000 00000000 %5d        0 %d 1 0000000000000000 100 0 0 10 0\n", k, choose(sim::W, 2) ? zero.c_str() : six ? "0000000000000000FFFF00000100007F" : "0100007F", port, peer ? hex.c_str() : zero.c_str(), peer, f[0] == 't' ? 10 : 7, choose(sim::W, 2) * 1000, 20000 + k);
            t += b;
        }
        fsWriteFile("/sim/proc/net/" + std::string(f), t);
    }
    net.range = std::to_string(net.low) + "\t" + std::to_string(net.high) + "\n";
    fsWriteFile("/sim/proc/sys/net/ipv4/ip_local_port_range", net.range);
    onPopen([](const std::string& cmd, std::string* out, int* status) {
        SIM_CHECK(cmd.find("/proc/sys/net/ipv4/ip_local_port_range") != std::string::npos, "a command nobody asked for: %s", cmd.c_str());
        *out = N->range; *status = 0;
        if (fault("command_fails", 1, 8)) { *status = choose(F, 2) ? 9 : 1 << 8; if (choose(F, 2)) out->resize(choose(F, (uint32_t)out->size())); }
        return true;
    });
    static const char* kinds[] = {"getifaddrs_fail", "gethostname_fail", "dns_fail", "popen_fail", "pclose_fail", "read_fail", "open_fail", "stat_fail", "command_fails"};
    auto troubles = [] { uint64_t n = 0; for (auto* f : kinds) n += faultCount(f); return n; };
    auto ipsOf = [&](const std::string& d) { std::multiset<std::string> s; for (auto& x : net.devs) if (x.family == AF_INET && (d.empty() || x.name == d)) s.insert(dotted(x.ip)); return s; };
    bool pair = false;                                   // there is an answer for getAvailablePort
    for (int p = 1025; p < room && !pair; ++p) pair = !net.used.count(p) && !net.used.count(p + 1);
    int scans = 1;                                       // of the socket tables: regular expressions take many steps
    int nt = 1 + choose(sim::W, 3), each = 1 + choose(sim::W, 6);
    auto body = [&] {
        for (int k = 0; k < each; ++k) {
            uint64_t f0 = troubles();
            auto trouble = [&] { return troubles() > f0; };
            switch (choose(sim::W, 9)) {
            case 0: {
                auto h = NetworkUtils::getHostname();
                if (h.empty()) SIM_CHECK(trouble() || net.hostname.size() >= 256 || net.hostname.empty(), "no host name although there is one of %zu bytes", net.hostname.size());
                else SIM_CHECK(h == net.hostname, "the host name of %zu bytes came as %zu", net.hostname.size(), h.size());
                count("hostname");
                break;
            }
            case 1: {
                std::string d = dn[choose(sim::W, 6)];
                auto r = NetworkUtils::getIPv4FromDevice(d);
                auto want = ipsOf(d);
                if (d == "any") SIM_CHECK(r.ok() && r.value() == "0.0.0.0", "device any is not 0.0.0.0");
                else if (r.ok()) SIM_CHECK(want.count(r.value()), "device %s was said to have %s", d.c_str(), r.value().c_str());
                else SIM_CHECK(trouble() || want.empty(), "device %s was said to have no address", d.c_str());
                count("device");
                break;
            }
            case 2: {
                auto r = NetworkUtils::listIPv4s();
                auto want = ipsOf("");
                if (r.ok()) {
                    auto v = r.value();
                    std::set<std::string> got(v.begin(), v.end()), all(want.begin(), want.end());
                    SIM_CHECK(got == all && v.size() <= want.size(), "%zu IPv4 addresses were listed of %zu there are", got.size(), all.size());
                } else SIM_CHECK(trouble() || want.empty(), "%zu IPv4 addresses could not be listed: %s", want.size(), r.status().toString().c_str());
                count("list");
                break;
            }
            case 3: {
                auto r = NetworkUtils::listDeviceAndIPv4s();
                if (r.ok()) {
                    for (auto& d : net.devs) if (d.family == AF_INET) SIM_CHECK(r.value().count(d.name), "device %s is not listed", d.name.c_str());
                    for (auto& e : r.value()) SIM_CHECK(ipsOf(e.first).count(e.second), "device %s was listed with %s", e.first.c_str(), e.second.c_str());
                } else SIM_CHECK(trouble() || ipsOf("").empty(), "the devices could not be listed");
                count("devices");
                break;
            }
            case 4: {
                uint16_t lo = 0, hi = 0;
                bool ok = NetworkUtils::getDynamicPortRange(lo, hi);
                if (!ok) SIM_CHECK(trouble(), "the range of dynamic ports was not found");
                else if (lo != net.low || hi != net.high) SIM_CHECK(trouble() && lo == 49152 && hi == 65535, "the range of dynamic ports is %d to %d and not %d to %d", net.low, net.high, lo, hi);
                count("range");
                break;
            }
            case 5: {
                { NoPreempt np; if (scans-- <= 0) break; }
                auto u = NetworkUtils::getPortsInUse();
                for (auto p : u) SIM_CHECK(net.used.count(p), "port %d was said to be in use", p);
                if (!trouble()) SIM_CHECK(u.size() == net.used.size(), "%zu ports in use were found of %zu", u.size(), net.used.size());
                count("in_use");
                break;
            }
            case 6: {
                if (!pair || faultRate("popen_fail") || faultRate("pclose_fail")) break;     // the caller is ended then, by intent
                { NoPreempt np; if (scans-- <= 0) break; }
                int p = NetworkUtils::getAvailablePort();
                SIM_CHECK(p >= 1025 && p < 65535, "port %d was said to be available", p);
                if (!trouble()) {
                    SIM_CHECK(!net.used.count(p) && !net.used.count(p + 1), "port %d was said to be available and is in use, or the next one", p);
                    SIM_CHECK(net.low < 1027 || p < net.low, "port %d was offered, which is a dynamic one", p);
                }
                count("available");
                break;
            }
            case 7: {
                std::string h = hn[choose(sim::W, 4)];
                int port = choose(sim::W, 65536);
                auto r = NetworkUtils::resolveHost(h, port);
                std::vector<HostAddr> want;
                auto i = net.names.find(h);
                if (i != net.names.end()) for (auto& d : i->second) if (d.family == AF_INET) want.emplace_back(dotted(d.ip), port);
                if (r.ok()) SIM_CHECK(r.value() == want && !want.empty(), "%s was resolved to %zu addresses, not %zu", h.c_str(), r.value().size(), want.size());
                else SIM_CHECK(trouble() || want.empty(), "%s was not resolved", h.c_str());
                count("resolved");
                break;
            }
            default: {
                std::vector<HostAddr> hs;
                for (int n = choose(sim::W, 4); n > 0; --n) hs.emplace_back(choose(sim::W, 2) ? dotted(anyIp()) : hn[choose(sim::W, 4)], choose(sim::W, 65536));
                auto s = NetworkUtils::toHostsStr(hs);
                auto r = NetworkUtils::toHosts(s);
                SIM_CHECK(r.ok() && r.value() == hs, "the hosts of '%s' are others", s.c_str());
                count("hosts");
            }
            }
        }
    };
    std::vector<std::thread> ts;
    for (int t = 0; t < nt; ++t) ts.emplace_back(body);
    for (auto& t : ts) t.join();
    SIM_CHECK(net.lists == 0 && net.infos == 0, "%d lists of devices and %d of addresses were not given back", net.lists, net.infos);
    SIM_CHECK(popenUnwaited() == 0, "%d commands were not waited for", popenUnwaited());
    SIM_CHECK(fsOpenFds() == 0, "%d files were left open", fsOpenFds());
}
