// The present, in UTC and in the configured time zone, at any moment of the
// calendar; and the calendar itself.
#include "sim.h"
#include "simfs.h"
#include "common/base/Base.h"
#include "common/time/TimeUtils.h"
#include "common/time/TimezoneInfo.h"
DECLARE_string(timezone_name);
DECLARE_string(timezone_file);

using namespace sim;
using namespace nebula;
using nebula::time::TimeUtils;
using nebula::time::TimeConversion;
using nebula::time::Timezone;

namespace {
const int64_t SEC = 1000000000LL, DAY = 86400;
// Days since 1970-01-01 of a day of the proleptic Gregorian calendar, and back.
int64_t daysOf(int64_t y, int m, int d) {
    y -= m <= 2;
    int64_t era = (y >= 0 ? y : y - 399) / 400;
    unsigned yoe = (unsigned)(y - era * 400), doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1, doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    return era * 146097 + (int64_t)doe - 719468;
}
void civil(int64_t z, int64_t* y, int* m, int* d) {
    z += 719468;
    int64_t era = (z >= 0 ? z : z - 146096) / 146097;
    unsigned doe = (unsigned)(z - era * 146097), yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365, doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153;
    *d = doy - (153 * mp + 2) / 5 + 1; *m = mp < 10 ? mp + 3 : mp - 9; *y = (int64_t)yoe + era * 400 + (*m <= 2);
}
bool leap(int64_t y) { return y % 4 == 0 && (y % 100 != 0 || y % 400 == 0); }
int monthLen(int64_t y, int m) { static const int l[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}; return m == 2 && leap(y) ? 29 : l[m - 1]; }
int64_t secOf(const DateTime& t) { return daysOf(t.year, t.month, t.day) * DAY + t.hour * 3600 + t.minute * 60 + t.sec; }
bool valid(const DateTime& t) { return t.month >= 1 && t.month <= 12 && t.day >= 1 && t.day <= monthLen(t.year, t.month) && t.hour < 24 && t.minute < 60 && t.sec < 60 && t.microsec < 1000000; }
DateTime dtOf(int64_t s) {
    int64_t z = s >= 0 ? s / DAY : -((-s + DAY - 1) / DAY), r = s - z * DAY, y; int m, d;
    civil(z, &y, &m, &d);
    DateTime t; t.year = y; t.month = m; t.day = d; t.hour = r / 3600; t.minute = r / 60 % 60; t.sec = r % 60; t.microsec = 0;
    return t;
}
int64_t mod(int64_t a, int64_t b) { return (a % b + b) % b; }

// Some moment: often right before a boundary.
int64_t someMoment() {
    int64_t y = 1971 + choose(W, 260); int m = 1 + choose(W, 12), d;
    if (choose(W, 4) == 1) { static const int ys[] = {1972, 2000, 2020, 2038, 2100, 2096, 1999, 2200}; y = ys[choose(W, 8)]; }
    if (choose(W, 2)) m = choose(W, 3) ? 2 : 12;
    d = choose(W, 2) ? monthLen(y, m) : 1 + choose(W, monthLen(y, m));
    int64_t s = daysOf(y, m, d) * DAY;
    return choose(W, 3) ? s + DAY - 1 - choose(W, 12) : s + choose(W, DAY);
}
struct Zone { int64_t off = 0; std::string name; bool ok = true; };
Zone posixZone() {
    Zone z;
    int h = choose(W, 12), mi = choose(W, 3) == 1 ? 30 : 0, s = choose(W, 6) == 1 ? 15 : 0;
    bool neg = choose(W, 2);
    z.off = (h * 3600 + mi * 60 + s) * (neg ? -1 : 1);
    char b[64]; snprintf(b, sizeof b, "%s%c%02d:%02d:%02d", choose(W, 2) ? "UTC" : "ABC", neg ? '-' : '+', h, mi, s);
    z.name = b;
    return z;
}
// A zone file of a few regions; the one asked for may be missing, or the file broken.
Zone fileZone() {
    static const char* names[] = {"Asia/Here", "Europe/There", "Nowhere"};
    std::string f = "\"ID\",\"STD ABBR\",\"STD NAME\",\"DST ABBR\",\"DST NAME\",\"GMT offset\",\"DST adjustment\",\"DST Start Date rule\",\"Start time\",\"DST End date rule\",\"End time\"\n";
    Zone z; std::string pick = names[choose(W, 3)]; z.ok = false; z.name = ":" + pick;
    int n = choose(W, 3);
    for (int i = 0; i < n; i++) {
        int h = choose(W, 13), mi = choose(W, 2) * 30; bool neg = choose(W, 2);
        char b[160]; snprintf(b, sizeof b, "\"%s\",\"AB\",\"A B\",\"\",\"\",\"%c%02d:%02d:00\",\"+00:00:00\",\"\",\"\",\"\",\"+00:00:00\"\n", names[i], neg ? '-' : '+', h, mi);
        f += b;
        if (pick == names[i]) { z.ok = true; z.off = (h * 3600 + mi * 60) * (neg ? -1 : 1); }
    }
    int broken = choose(W, 8);
    if (broken == 1) { f += "\"Asia/Half\",\"AB\",\"A B\"\n"; z.ok = false; }
    FLAGS_timezone_file = "/sim/zones.csv";
    if (broken == 2) { FLAGS_timezone_file = "/sim/nothere.csv"; z.ok = false; }
    fsWriteFile("/sim/zones.csv", f);
    return z;
}
}  // namespace
namespace sim { void setFaultRate(const char*, uint32_t); }

SIM_SCENARIO(present) {
    fsInit();
    setClockLimitNs(400 * DAY * SEC);
    setTscHz(2400000000ull, 1000);
    int64_t at = someMoment();
    stepRealtime(at * SEC + choose(W, 1000) * 1000000LL - realNs());
    // The time zone, given by flag, file or environment.
    Zone z;
    bool reads = faultsOn() && choose(W, 2);
    int how = choose(W, 5);
    if (how == 0) { z.name = "UTC+00:00:00"; }
    else if (how == 1 || how == 2) z = posixZone();
    else if (how == 3) z = fileZone();
    else { static const char* bad[] = {"", "UTC+25:99", "+08", "UTC", "x"}; z.name = bad[choose(W, 5)]; z.ok = false; }
    if (choose(W, 3) == 1 || z.name.empty()) { FLAGS_timezone_name = ""; if (z.name.empty()) unsetenv("TZ"); else setenv("TZ", z.name.c_str(), 1); }
    else FLAGS_timezone_name = z.name;
    uint64_t f0 = faultCount("open_fail") + faultCount("read_fail");
    if (reads) { setFaultRate("open_fail", 12000); setFaultRate("read_fail", 12000); setFaultRate("short_read", 30000); }
    bool skips = faultsOn();
    setFaultRate("thread_stall", 0);
    auto st = Timezone::initializeGlobalTimezone();
    setFaultRate("open_fail", 0); setFaultRate("read_fail", 0);
    bool trouble = faultCount("open_fail") + faultCount("read_fail") > f0;
    if (how < 4) SIM_CHECK(st.ok() == z.ok || (!st.ok() && trouble && how == 3), "the time zone '%s' was %s: %s", z.name.c_str(), st.ok() ? "accepted" : "refused", st.toString().c_str());
    if (how == 4 && z.name.empty()) SIM_CHECK(!st.ok(), "no time zone at all was accepted");
    count(st.ok() ? "zones" : "zones_refused");
    if (!st.ok() || how == 4) return;
    int64_t off = z.off;
    SIM_CHECK(Timezone::getGlobalTimezone().utcOffsetSecs() == off, "the offset of '%s' is %d instead of %lld", z.name.c_str(), Timezone::getGlobalTimezone().utcOffsetSecs(), (long long)off);
    setSkips(false);
    bool f = faultsOn(); setFaults(false);
    nebula::time::WallClock::fastNowInMilliSec();
    sleepNs(6 * SEC);
    setFaults(f); setSkips(skips);
    note("moment %lld, offset %lld", (long long)at, (long long)off);
    auto work = [=] {
        int n = 4 + choose(W, 12);
        for (int i = 0; i < n; i++) {
            int64_t lo = realNs(), hi, tol = 0, x = 0; const char* what = ""; bool date = false, time = false; int64_t o = 0;
            DateTime dt; Date d; Time t;
            int op = choose(W, 6);
            switch (op) {
            case 0: dt = TimeUtils::utcDateTime(); what = "UTC date and time"; break;
            case 1: dt = TimeUtils::localDateTime(); what = "local date and time"; o = off; break;
            case 2: { auto r = TimeUtils::utcDate(); SIM_CHECK(r.ok(), "no date: %s", r.status().toString().c_str()); d = r.value(); what = "UTC date"; date = true; break; }
            case 3: { auto r = TimeUtils::localDate(); SIM_CHECK(r.ok(), "no date: %s", r.status().toString().c_str()); d = r.value(); what = "local date"; date = true; o = off; break; }
            case 4: t = TimeUtils::utcTime(); what = "UTC time"; time = true; break;
            default: t = TimeUtils::localTime(); what = "local time"; time = true; o = off; break;
            }
            hi = realNs();
            if (!date) tol = 6000000 + 3 * stolenNs();                       // of the fast clock
            int64_t a = lo - tol + o * SEC, b = hi + tol + o * SEC;             // it was then
            if (date) {
                int64_t z0 = a / SEC / DAY, z1 = b / SEC / DAY, k = daysOf(d.year, d.month, d.day);
                SIM_CHECK(d.month >= 1 && d.month <= 12 && d.day >= 1 && d.day <= monthLen(d.year, d.month) && k >= z0 && k <= z1, "%s: %s instead of %s", what, d.toString().c_str(), dtOf(a / SEC).toString().c_str());
            } else if (time) {
                SIM_CHECK(t.hour >= 0 && t.hour < 24 && t.minute >= 0 && t.minute < 60 && t.sec >= 0 && t.sec < 60 && t.microsec >= 0 && t.microsec < 1000000, "%s: %s is no time", what, t.toString().c_str());
                x = (t.hour * 3600 + t.minute * 60 + t.sec) * SEC + t.microsec * 1000LL;
                SIM_CHECK(mod(x - (a - 1000000), DAY * SEC) <= b - a + 1000000, "%s: %s instead of %s", what, t.toString().c_str(), dtOf(a / SEC).toString().c_str());
            } else {
                SIM_CHECK(valid(dt), "%s: %s is no date and time", what, dt.toString().c_str());
                x = secOf(dt) * SEC + dt.microsec * 1000LL;
                SIM_CHECK(x >= a - 1000000 && x <= b, "%s: %s instead of %s", what, dt.toString().c_str(), dtOf(a / SEC).toString().c_str());
            }
            count("readings");
            static const int64_t nap[] = {0, 1000, 1000000, 700000000, SEC, 7 * SEC, 61 * SEC, 2 * SEC};
            int k = choose(W, 8);
            if (nap[k]) sleepNs(nap[k] + choose(W, 1000) * 1000);
            // To and fro between UTC and local.
            DateTime u = dtOf(someMoment() - 40 * 365 * DAY); u.microsec = choose(W, 1000000);
            auto l = TimeUtils::utcToDateTime(u);
            SIM_CHECK(valid(l) && secOf(l) == secOf(u) + off && l.microsec == u.microsec, "%s is %s local", u.toString().c_str(), l.toString().c_str());
            SIM_CHECK(TimeUtils::dateTimeToUTC(l) == u, "%s is %s UTC", l.toString().c_str(), TimeUtils::dateTimeToUTC(l).toString().c_str());
            Time ut(u.hour, u.minute, u.sec, u.microsec), lt = TimeUtils::utcToTime(ut);
            SIM_CHECK(lt == Time(l.hour, l.minute, l.sec, l.microsec) && TimeUtils::timeToUTC(lt) == ut, "%s is %s local", ut.toString().c_str(), lt.toString().c_str());
        }
    };
    int nt = 1 + choose(W, 2);
    std::vector<std::thread> ts;
    for (int i = 0; i < nt; i++) ts.emplace_back(work);
    for (auto& t : ts) t.join();
}

// The calendar: seconds, days and dates, to and fro, over all years there are.
SIM_SCENARIO(calendar) {
    auto someDt = [] {
        DateTime t;
        static const int ys[] = {-32768, 32767, 0, -1, 1, 1969, 1970, -4, -100, -400, 400, 4, 1900, 2000, -32767, 32766};
        t.year = choose(W, 3) ? (int)choose(W, 65536) - 32768 : ys[choose(W, 16)];
        t.month = choose(W, 3) == 1 ? 2 : 1 + choose(W, 12);
        t.day = choose(W, 3) == 1 ? monthLen(t.year, t.month) : 1 + choose(W, monthLen(t.year, t.month));
        bool edge = choose(W, 3) == 1, end = choose(W, 2);
        t.hour = edge ? (end ? 23 : 0) : choose(W, 24); t.minute = edge ? (end ? 59 : 0) : choose(W, 60); t.sec = edge ? (end ? 59 : 0) : choose(W, 60);
        t.microsec = choose(W, 2) ? choose(W, 1000000) : 0;
        return t;
    };
    int64_t first = daysOf(-32768, 1, 1), last = daysOf(32767, 12, 31);
    for (int i = 0; i < 30; i++) {
        DateTime t = someDt(), u = someDt();
        int64_t s = secOf(t);
        SIM_CHECK(TimeConversion::dateTimeToUnixSeconds(t) == s, "%s is second %lld, not %lld", t.toString().c_str(), (long long)TimeConversion::dateTimeToUnixSeconds(t), (long long)s);
        SIM_CHECK(TimeConversion::dateTimeDiffSeconds(t, u) == s - secOf(u), "from %s to %s are not %lld seconds", u.toString().c_str(), t.toString().c_str(), (long long)(s - secOf(u)));
        DateTime b = TimeConversion::unixSecondsToDateTime(s); b.microsec = t.microsec;
        SIM_CHECK(b == t, "second %lld is %s, not %s", (long long)s, b.toString().c_str(), t.toString().c_str());
        Date d(t.year, t.month, t.day);
        SIM_CHECK(TimeConversion::dateToUnixSeconds(d) == daysOf(t.year, t.month, t.day) * DAY && TimeConversion::unixSecondsToDate(s) == d, "the date of second %lld is %s", (long long)s, TimeConversion::unixSecondsToDate(s).toString().c_str());
        Time c(t.hour, t.minute, t.sec, 0);
        SIM_CHECK(TimeConversion::unixSecondsToTime(s) == c && TimeConversion::timeToSeconds(c) == mod(s, DAY), "the time of second %lld is %s", (long long)s, TimeConversion::unixSecondsToTime(s).toString().c_str());
        SIM_CHECK(TimeConversion::isLeapYear(t.year) == leap(t.year), "leap year %d", t.year);
        int64_t days = daysOf(t.year, t.month, t.day) - first, num = d.toInt();
        Date e, ud(u.year, u.month, u.day);
        SIM_CHECK(num - ud.toInt() == days + first - daysOf(u.year, u.month, u.day), "from %s to %s are %lld days, not %lld", ud.toString().c_str(), d.toString().c_str(), (long long)(num - ud.toInt()), (long long)(days + first - daysOf(u.year, u.month, u.day)));
        e.fromInt(num);
        SIM_CHECK(e == d && Date((uint64_t)num) == d, "%s was stored and read as %s", d.toString().c_str(), e.toString().c_str());
        auto diff = Value(d) - Value(ud);
        SIM_CHECK(diff.isInt() && diff.getInt() == num - ud.toInt(), "the difference of two dates is not their days");
        int64_t k = choose(W, 3) ? (int64_t)choose(W, 800) : choose(W, 20000000);
        if (choose(W, 2)) k = -k;
        if (days + k >= 0 && days + k <= last - first) {
            int64_t y; int m, dd; civil(first + days + k, &y, &m, &dd); Date want(y, m, dd);
            SIM_CHECK((d + k) == want && (d - -k) == want, "%s and %lld days is %s, not %s", d.toString().c_str(), (long long)k, (d + k).toString().c_str(), want.toString().c_str());
            int64_t part = choose(W, 3) ? choose(W, DAY) : 0;                   // a date shifted by some hours is the day those end in
            Date ds = TimeConversion::dateShift(d, k * DAY + part);
            SIM_CHECK(ds == want && TimeConversion::dateShift(d, 0) == d, "%s shifted by %lld days and %lld s is %s, not %s", d.toString().c_str(), (long long)k, (long long)part, ds.toString().c_str(), want.toString().c_str());
            Time tm(t.hour, t.minute, t.sec, t.microsec), ts = TimeConversion::timeShift(tm, k * DAY + part), tw = tm;
            int64_t sod = mod(s + part, DAY); tw.hour = sod / 3600; tw.minute = sod / 60 % 60; tw.sec = sod % 60;
            SIM_CHECK(ts == tw, "%s shifted by %lld days and %lld s is %s, not %s", tm.toString().c_str(), (long long)k, (long long)part, ts.toString().c_str(), tw.toString().c_str());
            DateTime sh = TimeConversion::dateTimeShift(t, k * DAY + 1);
            if (days + k < last - first) SIM_CHECK(secOf(sh) == s + k * DAY + 1 && sh.microsec == t.microsec && valid(sh), "%s shifted by %lld days and a second is %s", t.toString().c_str(), (long long)k, sh.toString().c_str());
        }
        // As texts and maps.
        if (t.year >= 1000 && t.year <= 9999) {
            char a[40], a2[40]; snprintf(a, sizeof a, "%04d-%02d-%02dT%02d:%02d:%02d", t.year, t.month, t.day, t.hour, t.minute, t.sec);
            snprintf(a2, sizeof a2, "%s", a); a2[10] = 0;
            auto p = TimeUtils::parseDateTime(a); t.microsec = 0;
            SIM_CHECK(p.ok() && p.value() == t, "%s was read as %s", a, p.ok() ? p.value().toString().c_str() : "nothing");
            a[10] = ' '; p = TimeUtils::parseDateTime(a);
            SIM_CHECK(p.ok() && p.value() == t, "%s was read as %s", a, p.ok() ? p.value().toString().c_str() : "nothing");
            auto q = TimeUtils::parseDate(a2); SIM_CHECK(q.ok() && q.value() == d, "%s was read as %s", a2, q.ok() ? q.value().toString().c_str() : "nothing");
            auto r = TimeUtils::parseTime(a + 11); SIM_CHECK(r.ok() && r.value() == c, "%s was read as %s", a + 11, r.ok() ? r.value().toString().c_str() : "nothing");
            auto ts = TimeUtils::toTimestamp(Value(std::string(a)));
            SIM_CHECK(ts.ok() == (s >= 0 && s <= 9223372036) && (!ts.ok() || ts.value().getInt() == s), "the time stamp of %s is wrong", a);
        }
        int mo = choose(W, 15), da = choose(W, 34), ho = (int)choose(W, 28) - 2, mi = (int)choose(W, 64) - 2, se = (int)choose(W, 64) - 2; int64_t us = choose(W, 3) ? choose(W, 1000000) : (choose(W, 2) ? -1 : 1000000), ye = choose(W, 6) ? t.year : (choose(W, 2) ? 32768 : -32769);
        Map m; m.kvs = {{"year", Value(ye)}, {"month", Value(mo)}, {"day", Value(da)}, {"hour", Value(ho)}, {"minute", Value(mi)}, {"second", Value(se)}, {"microsecond", Value(us)}};
        bool dok = ye == t.year && mo >= 1 && mo <= 12 && da >= 1 && da <= monthLen(ye, mo), tok = ho >= 0 && ho < 24 && mi >= 0 && mi < 60 && se >= 0 && se < 60 && us >= 0 && us < 1000000;
        auto x = TimeUtils::dateTimeFromMap(m);
        SIM_CHECK(x.ok() == (dok && tok), "%lld-%d-%d %d:%d:%d.%lld was %s", (long long)ye, mo, da, ho, mi, se, (long long)us, x.ok() ? "accepted" : "refused");
        if (x.ok()) SIM_CHECK(x.value().year == ye && x.value().month == mo && x.value().day == da && x.value().hour == ho && x.value().minute == mi && x.value().sec == se && x.value().microsec == us, "a date and time made from a map is another");
        Map md; md.kvs = {{"year", Value(ye)}, {"month", Value(mo)}, {"day", Value(da)}};
        auto xd = TimeUtils::dateFromMap(md); SIM_CHECK(xd.ok() == dok && (!dok || xd.value() == Date(ye, mo, da)), "%lld-%d-%d was %s", (long long)ye, mo, da, xd.ok() ? "accepted" : "refused");
        Map mt; mt.kvs = {{"hour", Value(ho)}, {"minute", Value(mi)}, {"second", Value(se)}, {"microsecond", Value(us)}};
        auto xt = TimeUtils::timeFromMap(mt); SIM_CHECK(xt.ok() == tok && (!tok || xt.value() == Time(ho, mi, se, us)), "%d:%d:%d.%lld was %s", ho, mi, se, (long long)us, xt.ok() ? "accepted" : "refused");
    }
}
