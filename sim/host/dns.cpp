#include "dns.h"
#include <algorithm>

const char *kTypeName[NTYPES + 1] = {"A",   "NS",   "CNAME", "DNAME", "SOA",  "PTR", "MX",
                                     "TXT", "AAAA", "SRV",   "RRSIG", "NSEC", "SPF", "DS"};

int type_of(const std::string &s)
{
    for (int i = 0; i <= NTYPES; i++)
        if (s == kTypeName[i])
            return i;
    return -1;
}

std::string types_text(Types t)
{
    std::set<std::string> names;
    for (int i = 0; i < NTYPES; i++)
        if (t & bit(i))
            names.insert(kTypeName[i]);
    std::string r;
    for (auto &n : names)
        r += (r.empty() ? "" : " ") + n;
    return r;
}

std::string text(const Name &n)
{
    if (n.empty())
        return ".";
    std::string r;
    for (auto it = n.rbegin(); it != n.rend(); ++it)
        r += *it + ".";
    return r;
}

Name name_of(const std::string &s)
{
    Name n;
    std::string cur;
    for (size_t i = 0; i < s.size(); i++) {
        if (s[i] == '\\' && i + 1 < s.size()) {
            cur += s[i];
            cur += s[++i];
        } else if (s[i] == '.') {
            if (!cur.empty())
                n.push_back(cur);
            cur.clear();
        } else {
            cur += s[i];
        }
    }
    if (!cur.empty())
        n.push_back(cur);
    std::reverse(n.begin(), n.end());
    return n;
}

bool under(const Name &d, const Name &n)
{
    return d.size() <= n.size() && std::equal(d.begin(), d.end(), n.begin());
}

bool length_ok(const Name &n, std::string *bad)
{
    size_t len = 0;
    for (auto &l : n) {
        if (l.size() > 63) {
            if (bad)
                *bad = l;
            return false;
        }
        len += l.size() + 1;
    }
    if (bad)
        bad->clear();
    return len <= 254;
}

namespace
{
std::string recase(const std::string &s, Rng &r)
{
    std::string o = s;
    for (auto &c : o)
        if (c >= 'a' && c <= 'z' && r.chance(40))
            c = (char)(c - 32);
    return o;
}

struct Writer {
    const Zone &z;
    std::string out;
    int line = 0; // completed lines
    Name origin;
    bool have_origin;
    bool ttl_directive = false, ttl_known = false;
    uint32_t ttl = 0;
    bool owner_known = false;
    Name owner;

    explicit Writer(const Zone &zz) : z(zz), origin(zz.origin), have_origin(zz.meta_origin)
    {
    }
    bool has(uint32_t f) const
    {
        return z.style & f;
    }
    void newline()
    {
        out += has(ST_CRLF) ? "\r\n" : "\n";
        line++;
    }
    std::string gap(Rng &r)
    {
        if (has(ST_TABS) && r.chance(50))
            return r.chance(50) ? "\t" : "\t  ";
        return r.chance(20) ? "   " : " ";
    }
    std::string comment(Rng &r)
    {
        static const char *c[] = {";", "; text", "; a.b. IN NS c.d.", ";;; \"quoted\" (paren)", "; $TTL 5", "; x ( y ) z"};
        return c[1 + r.below(5)];
    }
    // a way to write a name; the caller guarantees that it is legal in this place
    std::string name_text(const Name &n, Rng &r, bool at_ok)
    {
        std::string t;
        if (have_origin && has(ST_AT) && at_ok && n == origin && r.chance(70)) {
            t = "@";
        } else if (have_origin && has(ST_RELATIVE) && n.size() > origin.size() && under(origin, n) && r.chance(75)) {
            Name rel(n.begin() + (long)origin.size(), n.end());
            t = text(rel);
            t.pop_back();
        } else {
            t = text(n);
        }
        if (has(ST_CASE) && r.chance(60))
            t = recase(t, r);
        return t;
    }

    void noise(Rng &r)
    {
        if (has(ST_COMMENTS) && r.chance(12)) {
            out += (r.chance(30) ? "  " : "") + comment(r);
            // blanks before a comment start a record without fields
            newline();
        }
        if (has(ST_BLANK) && r.chance(10))
            newline();
        if (has(ST_ORIGIN) && have_origin && r.chance(12)) {
            // a new origin at or below the zone's
            Name o = z.origin;
            if (!z.recs.empty() && r.chance(75)) {
                const Name &n = r.pick(z.recs).name;
                if (under(z.origin, n))
                    o = Name(n.begin(), n.begin() + (long)(z.origin.size() + r.below(n.size() - z.origin.size() + 1)));
            }
            if (o.size() && o.back() == "*")
                o.pop_back();
            std::string t;
            if (has(ST_RELATIVE) && under(origin, o) && o.size() > origin.size() && r.chance(50)) {
                t = text(Name(o.begin() + (long)origin.size(), o.end()));
                t.pop_back();
            } else {
                t = text(o);
            }
            if (has(ST_CASE) && r.chance(50))
                t = recase(t, r);
            out += "$ORIGIN" + gap(r) + t;
            if (has(ST_COMMENTS) && r.chance(20))
                out += " " + comment(r);
            newline();
            origin = o;
        }
        if (has(ST_OTHER) && owner_known && r.chance(12)) {
            // it is not loaded, but it states an owner and a TTL
            static const char *other[] = {"HINFO \"PC\" \"Linux\"", "CAA 0 issue \"ca.example\"", "TLSA 3 1 1 abcdef",
                                          "LOC 52 22 23 N 4 53 32 E -2m 0m 10000m 10m", "TYPE65280 \\# 4 0a000001",
                                          "NSEC3 1 0 0 - 2t7b4g4vsa5smi47k61mv5bv1a22bojr MX RRSIG",
                                          "DNSKEY 257 3 8 (\n   AwEAAc== )", "NAPTR 10 100 \"s\" \"x\" \"\" srv.example."};
            Name n = z.origin;
            if (r.chance(70))
                n = r.pick(z.recs).name;
            else if (r.chance(50))
                n.push_back("other");
            if (has(ST_OMIT_OWNER) && n == owner && r.chance(60))
                out += gap(r);
            else if (length_ok(n))
                out += name_text(n, r, true) + gap(r), owner = n;
            else
                out += gap(r);
            if (r.chance(60) || !ttl_known) {
                uint32_t t = r.pick(z.recs).ttl;
                out += std::to_string(t) + gap(r);
                if (!ttl_directive) {
                    ttl_known = true;
                    ttl = t;
                }
            }
            std::string t = r.chance(70) ? "IN" + gap(r) : "";
            t += other[r.below(8)];
            for (char ch : t)
                if (ch == '\n')
                    line++;
            out += t;
            newline();
        }
        if (has(ST_TTL) && r.chance(ttl_directive ? 8 : 25)) {
            uint32_t t = z.recs.empty() ? 60 : r.pick(z.recs).ttl;
            out += "$TTL" + gap(r) + std::to_string(t);
            newline();
            ttl_directive = ttl_known = true;
            ttl = t;
        }
    }

    static std::vector<std::string> fields(const std::string &s)
    {
        std::vector<std::string> f;
        std::string cur;
        bool q = false;
        for (size_t i = 0; i < s.size(); i++) {
            char c = s[i];
            if (c == '\\' && i + 1 < s.size()) {
                cur += c;
                cur += s[++i];
            } else if (c == '"') {
                q = !q;
                cur += c;
            } else if (c == ' ' && !q) {
                f.push_back(cur);
                cur.clear();
            } else {
                cur += c;
            }
        }
        f.push_back(cur);
        return f;
    }

    void record(const Rec &rec, bool last)
    {
        Rng r(mix64(z.lay, rec.lay));
        noise(r);
        std::string s;
        bool soa = rec.type == SOA;
        if (has(ST_OMIT_OWNER) && owner_known && owner == rec.name && !soa && r.chance(75)) {
            s += gap(r);
        } else {
            s += name_text(rec.name, r, true);
            s += gap(r);
        }
        owner_known = true;
        owner = rec.name;
        bool omit_ttl = has(ST_OMIT_TTL) && ttl_known && ttl == rec.ttl && r.chance(80);
        std::string t = omit_ttl ? "" : std::to_string(rec.ttl) + gap(r);
        if (!omit_ttl && !ttl_directive) {
            ttl_known = true;
            ttl = rec.ttl;
        }
        bool cls = !has(ST_CLASS) || r.chance(60);
        std::string c = cls ? std::string(has(ST_CASE) && r.chance(30) ? "in" : "IN") + gap(r) : "";
        s += has(ST_CLASS) && r.chance(40) ? c + t : t + c;
        std::string ty = kTypeName[rec.type];
        if (has(ST_CASE) && r.chance(40))
            std::transform(ty.begin(), ty.end(), ty.begin(), ::tolower);
        s += ty;
        s += gap(r);
        auto f = fields(rec.rdata);
        // which fields are names
        auto target = [&](size_t i) {
            switch (rec.type) {
            case NS:
            case CNAME:
            case DNAME:
            case PTR:
            case NSEC:
                return i == 0;
            case MX:
                return i == 1;
            case SOA:
                return i < 2;
            case SRV:
                return i == 3;
            case RRSIG:
                return i == 7;
            default:
                return false;
            }
        };
        bool open = false, done_open = false;
        for (size_t i = 0; i < f.size(); i++) {
            if ((has(ST_PARENS) || (soa && r.chance(50))) && !done_open && r.chance(soa ? 60 : 25)) {
                open = done_open = true;
                s += "(" + std::string(r.chance(50) ? " " : "");
                if (r.chance(50)) {
                    if (has(ST_COMMENTS) && r.chance(50))
                        s += " " + comment(r);
                    s += "\n";
                    s += r.chance(50) ? "   " : "";
                }
            }
            if (target(i))
                s += name_text(name_of(f[i]), r, true);
            else if (has(ST_CASE) && r.chance(40) && f[i][0] != '"')
                s += recase(f[i], r);
            else
                s += f[i];
            if (i + 1 < f.size()) {
                if (open && r.chance(40)) {
                    if (has(ST_COMMENTS) && r.chance(40))
                        s += " " + comment(r);
                    s += "\n";
                    s += r.chance(60) ? "\t" : "";
                } else {
                    s += gap(r);
                }
            }
        }
        if (open)
            s += r.chance(50) ? " )" : ")";
        if (has(ST_COMMENTS) && r.chance(15))
            s += " " + comment(r);
        for (char ch : s) {
            if (ch == '\n') {
                line++;
                if (has(ST_CRLF))
                    out += '\r';
            }
            out += ch;
        }
        if (soa && !have_origin) {
            have_origin = true;
            origin = z.origin;
        }
        if (!(last && has(ST_NO_FINAL_NEWLINE)))
            newline();
        else
            line++;
    }
};
} // namespace

RenderedZone render(const Zone &z)
{
    RenderedZone o;
    Writer w(z);
    Rng r(z.lay);
    if (w.has(ST_COMMENTS) && r.chance(50)) {
        w.out += "; zone " + text(z.origin);
        w.newline();
    }
    for (size_t i = 0; i < z.recs.size(); i++) {
        w.record(z.recs[i], i + 1 == z.recs.size());
        o.line.push_back(w.line);
    }
    o.text = std::move(w.out);
    return o;
}

json metadata(const Scenario &s)
{
    json m;
    m["TopNameServers"] = s.top;
    m["ZoneFiles"] = json::array();
    for (auto &z : s.zones) {
        json e;
        e["FileName"] = z.file;
        e["NameServer"] = z.ns;
        if (z.meta_origin)
            e["Origin"] = text(z.origin);
        m["ZoneFiles"].push_back(e);
    }
    return m;
}

json jobs_json(const std::vector<Job> &jobs)
{
    json a = json::array();
    for (auto &j : jobs) {
        json o;
        o["Domain"] = j.domain;
        o["SubDomain"] = j.sub;
        o["Properties"] = json::array();
        for (auto &p : j.props) {
            json q;
            q["PropertyName"] = p.name;
            if (p.has_types)
                q["Types"] = p.types;
            if (p.name == "Hops" || p.name == "Rewrites")
                q["Value"] = p.number;
            else if (!p.values.empty())
                q["Value"] = p.values;
            o["Properties"].push_back(q);
        }
        a.push_back(o);
    }
    return a;
}

// bytes as code points, since record data need not be UTF-8
static std::string widen(const std::string &s)
{
    std::string o;
    for (unsigned char c : s)
        if (c < 0x80) {
            o += (char)c;
        } else {
            o += (char)(0xc0 | c >> 6);
            o += (char)(0x80 | (c & 0x3f));
        }
    return o;
}

static std::string narrow(const std::string &s)
{
    std::string o;
    for (size_t i = 0; i < s.size(); i++)
        if ((unsigned char)s[i] < 0x80)
            o += s[i];
        else if (i + 1 < s.size()) {
            o += (char)(((unsigned char)s[i] & 3) << 6 | ((unsigned char)s[i + 1] & 0x3f));
            i++;
        }
    return o;
}

json to_json(const Scenario &s)
{
    json j;
    j["top"] = s.top;
    j["zones"] = json::array();
    for (auto &z : s.zones) {
        json o;
        o["file"] = z.file;
        o["ns"] = z.ns;
        o["origin"] = text(z.origin);
        o["meta_origin"] = z.meta_origin;
        o["style"] = z.style;
        o["lay"] = z.lay;
        o["recs"] = json::array();
        for (auto &r : z.recs)
            o["recs"].push_back({text(r.name), r.type, r.ttl, widen(r.rdata), r.lay});
        j["zones"].push_back(o);
    }
    j["default_job"] = s.default_job;
    j["jobs"] = jobs_json(s.jobs);
    j["stats"] = s.stats;
    j["lint"] = s.lint;
    j["log"] = s.log;
    j["verbose"] = s.verbose;
    return j;
}

Scenario scenario_from(const json &j)
{
    Scenario s;
    s.top = j["top"].get<std::vector<std::string>>();
    for (auto &o : j["zones"]) {
        Zone z;
        z.file = o["file"];
        z.ns = o["ns"];
        z.origin = name_of(o["origin"]);
        z.meta_origin = o["meta_origin"];
        z.style = o["style"];
        z.lay = o["lay"];
        for (auto &r : o["recs"]) {
            Rec x;
            x.name = name_of(r[0]);
            x.type = r[1];
            x.ttl = r[2];
            x.rdata = narrow(r[3].get<std::string>());
            x.lay = r[4];
            z.recs.push_back(x);
        }
        s.zones.push_back(z);
    }
    s.default_job = j["default_job"];
    for (auto &o : j["jobs"]) {
        Job b;
        b.domain = o["Domain"];
        b.sub = o["SubDomain"];
        for (auto &q : o["Properties"]) {
            Prop p;
            p.name = q["PropertyName"];
            p.has_types = q.count("Types");
            if (p.has_types)
                p.types = q["Types"].get<std::vector<std::string>>();
            if (q.count("Value")) {
                if (q["Value"].is_number())
                    p.number = q["Value"];
                else
                    p.values = q["Value"].get<std::vector<std::string>>();
            }
            b.props.push_back(p);
        }
        s.jobs.push_back(b);
    }
    s.stats = j["stats"];
    s.lint = j["lint"];
    s.log = j["log"];
    s.verbose = j["verbose"];
    return s;
}
