#include "gen.h"
#include <algorithm>

const std::vector<std::string> kPathProps = {"Hops",       "Rewrites",          "QueryRewrite", "NameserverContact",
                                             "AllAliases", "RewriteBlackholing"};
const std::vector<std::string> kAnswerProps = {"ResponseReturned", "ResponseValue", "ResponseConsistency", "ZeroTTL"};
const std::vector<std::string> kDelegationProps = {"DelegationConsistency", "LameDelegation"};
const std::vector<std::string> kAllProps = {
    "Hops",          "Rewrites",    "QueryRewrite",     "NameserverContact",     "AllAliases",
    "RewriteBlackholing", "ResponseReturned", "ResponseValue", "ResponseConsistency", "ZeroTTL",
    "DelegationConsistency", "LameDelegation", "StructuralDelegationConsistency", "DNAMESubstitutionCheck", "InfiniteDNameRec"};

namespace
{
struct Gen {
    Rng r;
    const Profile &p;
    Scenario s;
    std::vector<std::string> labels;
    struct Z {
        Name origin;
        int parent = -1;
        std::vector<Name> servers;
        std::vector<Rec> recs;
        Name fan_owner; // of a DNAME whose target depends on the server
        std::vector<std::string> fan;
    };
    std::vector<Z> zs;
    std::vector<Name> pool; // interesting names
    std::vector<Name> servers;
    bool rewrite_heavy = false, wild = false, use_dname = false, unglued = false, inconsistent = false, lame = false;
    bool many_types = false, zero_ttl = false;

    uint64_t start;
    bool eight = false; // bytes beyond ASCII
    bool escapes = false;

    Gen(uint64_t seed, const Profile &pp) : r(seed), p(pp), start(seed)
    {
    }

    Name below(const Name &n, const std::string &l)
    {
        Name o = n;
        o.push_back(l);
        return o;
    }
    std::string label()
    {
        if (p.deep && r.chance(15)) {
            static const int sizes[] = {63, 62, 60, 50, 40, 30};
            return std::string((size_t)sizes[r.below(6)], (char)('a' + r.below(3)));
        }
        return r.pick(labels);
    }
    std::string addr(int type)
    {
        int n = r.range(1, 4);
        return type == AAAA ? "2001:db8::" + std::to_string(n) : "10.0.0." + std::to_string(n);
    }
    uint32_t ttl()
    {
        static const uint32_t t[] = {3600, 300, 86400, 7200, 2147483647};
        if (zero_ttl && r.chance(30))
            return 0;
        return r.chance(70) ? 3600 : t[r.below(5)];
    }
    Name target()
    {
        if (pool.empty() || r.chance(6))
            return name_of("ext.net.");
        Name n = r.pick(pool);
        if (!n.empty() && n.back() == "*")
            n.back() = label();
        if (r.chance(25))
            n = below(n, label());
        return n;
    }
    Rec rec(const Name &n, int type, const std::string &rdata)
    {
        Rec x;
        x.name = n;
        x.type = type;
        x.rdata = rdata;
        x.ttl = ttl();
        x.lay = r.next();
        return x;
    }
    std::string data(int type)
    {
        switch (type) {
        case A:
        case AAAA:
            return addr(type);
        case MX:
            return std::to_string(r.range(1, 2) * 10) + " " + text(target());
        case TXT:
        case SPF:
            if (eight && r.chance(40))
                return r.chance(50) ? "\"caf\xe9\"" : "\"caf\xc3\xa9\"";
            if (escapes && r.chance(60)) {
                static const char *t[] = {R"("say \"hi\" ; there" "x")", R"("a\\")", R"("a\"")", R"(a\;b)", R"("\" ( \"")", R"(\"q\")", R"(a\(b)"};
                return t[r.below(7)];
            }
            if (r.chance(5)) {
                std::string t;
                for (int i = 0, n = r.range(3, 14); i < n; i++)
                    t += (i ? " \"s" : "\"s") + std::to_string(i) + "\"";
                return t;
            }
            switch (r.below(4)) {
            case 0:
                return "\"v=spf1 -all\"";
            case 1:
                return "\"a; b ( c\" \"d\"";
            case 2:
                return "word";
            default:
                return "\"x" + std::to_string(r.range(1, 3)) + "\"";
            }
        case PTR:
            return text(target());
        case SRV:
            return "0 5 " + std::to_string(r.range(1, 2) * 5060) + " " + text(target());
        case RRSIG:
            return "a 8 2 3600 20300101000000 20200101000000 123 example. abcd" + std::to_string(r.range(1, 3)) + "==";
        case NSEC:
            return text(target()) + " a ns rrsig";
        case DS:
            return std::to_string(r.range(1, 9)) + " 8 2 abcdef";
        }
        return "";
    }
    // add unless illegal in its zone; a record that exists already keeps its TTL
    bool add(std::vector<Rec> &recs, const Rec &x)
    {
        for (auto &o : recs)
            if (o.name == x.name) {
                if (o.type == x.type && (o.rdata == x.rdata || o.type == CNAME || o.type == DNAME))
                    return false;
                if (o.type != x.type && (o.type == CNAME || x.type == CNAME))
                    return false;
            }
        recs.push_back(x);
        pool.push_back(x.name);
        return true;
    }

    void make_zones()
    {
        int n = r.range(p.min_zones, p.max_zones);
        static const char *tops[] = {".", "com.", "org.", "a.", "x.y.", "b.a."};
        int ntop = r.chance(15) ? 2 : 1;
        for (int i = 0; i < n; i++) {
            Z z;
            for (int tries = 0; tries < 20; tries++) {
                if (i < ntop) {
                    z.origin = name_of(tops[r.below(6)]);
                } else {
                    z.parent = (int)r.below(zs.size());
                    z.origin = below(zs[z.parent].origin, label());
                    if (r.chance(20))
                        z.origin = below(z.origin, label());
                }
                bool clash = !length_ok(z.origin) || z.origin.size() > 7;
                for (auto &o : zs)
                    clash |= o.origin == z.origin;
                if (!clash)
                    break;
                z.origin.clear();
                if (tries == 19)
                    return;
            }
            bool clash = false;
            for (auto &o : zs)
                clash |= o.origin == z.origin;
            if (clash)
                continue;
            // the parent is the longest enclosing zone
            z.parent = -1;
            for (size_t k = 0; k < zs.size(); k++)
                if (under(zs[k].origin, z.origin) &&
                    (z.parent < 0 || zs[k].origin.size() > zs[(size_t)z.parent].origin.size()))
                    z.parent = (int)k;
            zs.push_back(z);
        }
        for (auto &z : zs)
            pool.push_back(z.origin);
    }

    void make_servers()
    {
        size_t crowded = p.fan ? r.below(zs.size()) : 0;
        for (size_t q = 1; p.fan && q < zs.size(); q++)
            if (zs[q].parent == 0)
                crowded = q;
        for (auto &z : zs) {
            if (p.fan && (&z == &zs[0] || &z == &zs[crowded])) {
                int k = r.range(10, 20);
                for (int i = 0; i < k; i++) {
                    z.servers.push_back(below(z.origin, "ns" + std::to_string(i + 1)));
                    servers.push_back(z.servers.back());
                }
                continue;
            }
            int k = p.cuts ? (r.chance(30) ? 1 : r.chance(40) ? 2 : r.range(3, 4)) : r.chance(50) ? 1 : r.chance(70) ? 2 : 3;
            if (rewrite_heavy)
                k = std::min(k, 2);
            for (int i = 0; i < k; i++) {
                Name s;
                int c = r.range(0, 99);
                if (c < 50)
                    s = below(z.origin, "ns" + std::to_string(i + 1));
                else if (c < 70 && !servers.empty())
                    s = r.pick(servers);
                else if (c < 88)
                    s = below(r.pick(zs).origin, "ns" + std::to_string(r.range(1, 3)));
                else if (c < 94)
                    s = below(below(z.origin, label()), "ns");
                else
                    s = name_of("ns.ext.net.");
                if (std::find(z.servers.begin(), z.servers.end(), s) == z.servers.end())
                    z.servers.push_back(s);
                if (std::find(servers.begin(), servers.end(), s) == servers.end())
                    servers.push_back(s);
            }
        }
    }

    const Z *zone_of(const Name &n) const
    {
        const Z *best = nullptr;
        for (auto &z : zs)
            if (under(z.origin, n) && (!best || z.origin.size() > best->origin.size()))
                best = &z;
        return best;
    }

    void fill(Z &z)
    {
        auto &recs = z.recs;
        std::string soa_ns = text(z.servers.empty() ? z.origin : z.servers[0]);
        recs.push_back(rec(z.origin, SOA, soa_ns + " admin." + (z.origin.empty() ? "" : text(z.origin)) +
                                              " " + std::to_string(r.range(1, 9)) + " 7200 3600 1209600 300"));
        for (auto &s : z.servers)
            add(recs, rec(z.origin, NS, text(s)));
        int n = r.range(0, p.max_names);
        for (int i = 0; i < n; i++) {
            Name name = z.origin;
            int depth = r.chance(15) ? 0 : r.chance(70) ? 1 : r.chance(80) ? 2 : 3;
            for (int k = 0; k < depth; k++)
                name = below(name, label());
            if (wild && r.chance(25))
                name = below(depth > 1 ? z.origin : name, "*");
            if (r.chance(20)) {
                // below or at a name used before
                Name o = r.pick(pool);
                if (under(z.origin, o) && !(o.size() && o.back() == "*"))
                    name = r.chance(50) ? o : below(o, label());
            }
            if (!length_ok(name))
                continue;
            bool star = name.size() && name.back() == "*";
            int c = r.range(0, 99);
            int rw = rewrite_heavy ? 55 : 22;
            if (c < rw) {
                if (use_dname && !star && r.chance(45)) {
                    Name t = target();
                    if (length_ok(t))
                        add(recs, rec(name, DNAME, text(t)));
                } else if (name != z.origin) {
                    Name t = target();
                    if (length_ok(t))
                        add(recs, rec(name, CNAME, text(t)));
                }
            } else {
                int k = r.chance(75) ? 1 : r.range(2, 3);
                for (int q = 0; q < k; q++) {
                    static const int common[] = {A, A, A, AAAA, MX, TXT};
                    static const int rare[] = {A, AAAA, MX, TXT, PTR, SRV, SPF, RRSIG, NSEC, DS};
                    int t = many_types ? rare[r.below(10)] : common[r.below(6)];
                    bool cname = false;
                    for (auto &o : recs)
                        cname |= o.name == name && o.type == CNAME;
                    if (!cname)
                        add(recs, rec(name, t, data(t)));
                }
            }
        }
        if (p.wide && r.chance(35)) {
            // beyond the threshold of the child index, with further names below some of them
            int n2 = r.range(496, 540);
            Name at = r.chance(60) ? z.origin : below(z.origin, "w");
            for (int i = 0; i < n2; i++) {
                Name x = below(at, "h" + std::to_string(i));
                recs.push_back(rec(x, r.chance(90) ? A : TXT, ""));
                recs.back().rdata = data(recs.back().type);
                if (i % 90 == 7)
                    add(recs, rec(below(x, label()), A, addr(A)));
            }
            for (int i = 0; i < 6; i++) {
                Name x = below(at, "h" + std::to_string(r.below((uint64_t)n2)));
                if (r.chance(50))
                    x = below(x, label());
                add(recs, rec(x, MX, data(MX)));
            }
            if (use_dname) {
                Name t = below(at, "h" + std::to_string(r.below((uint64_t)n2 + 20)));
                add(recs, rec(below(at, "dn"), DNAME, text(t)));
            }
        }
    }

    void addresses()
    {
        for (auto &s : servers) {
            Z *best = nullptr;
            for (auto &z : zs)
                if (under(z.origin, s) && (!best || z.origin.size() > best->origin.size()))
                    best = &z;
            if (best && !r.chance(unglued ? 30 : 6)) {
                add(best->recs, rec(s, A, addr(A)));
                if (r.chance(20))
                    add(best->recs, rec(s, AAAA, addr(AAAA)));
            }
        }
    }

    void delegate()
    {
        for (size_t i = 0; i < zs.size(); i++) {
            Z &c = zs[i];
            if (c.parent < 0)
                continue;
            if (r.chance(4))
                continue; // not delegated
            Z &par = zs[(size_t)c.parent];
            for (auto &s : c.servers) {
                if (inconsistent && r.chance(15))
                    continue;
                add(par.recs, rec(c.origin, NS, text(s)));
                bool inside = under(par.origin, s);
                if (inside && !r.chance(unglued ? 50 : 8)) {
                    // usually what the child says
                    bool done = false;
                    for (auto &o : c.recs)
                        if (o.name == s && (o.type == A || o.type == AAAA)) {
                            Rec x = o;
                            x.lay = r.next();
                            if (inconsistent && r.chance(15))
                                x.rdata = addr(x.type);
                            if (!inconsistent || !r.chance(8))
                                add(par.recs, x);
                            done = true;
                        }
                    if (!done)
                        add(par.recs, rec(s, A, addr(A)));
                }
            }
            if (lame && r.chance(60)) {
                Name s = r.chance(60) && !servers.empty() ? r.pick(servers) : below(r.pick(zs).origin, "lame");
                add(par.recs, rec(c.origin, NS, text(s)));
                if (under(par.origin, s) && r.chance(60))
                    add(par.recs, rec(s, A, addr(A)));
            }
            if (many_types && r.chance(30))
                add(par.recs, rec(c.origin, DS, data(DS)));
        }
        // delegations to nowhere
        if (lame && r.chance(40)) {
            Z &z = r.chance(50) ? zs[0] : zs.back();
            Name n = below(z.origin, label());
            bool zone = false;
            for (auto &o : zs)
                zone |= under(o.origin, n) && o.origin.size() > z.origin.size();
            if (!zone && length_ok(n)) {
                Name s = r.chance(50) && !servers.empty() ? r.pick(servers) : below(n, "ns1");
                add(z.recs, rec(n, NS, text(s)));
                if (under(z.origin, s) && r.chance(60))
                    add(z.recs, rec(s, A, addr(A)));
            }
        }
    }

    // legal, but rare in practice
    void oddities()
    {
        auto free = [](const std::vector<Rec> &recs, const Name &n) {
            for (auto &o : recs)
                if (o.name == n && (o.type == CNAME || o.type == DNAME))
                    return false;
            return true;
        };
        if (wild && r.chance(25)) {
            // names below an asterisk
            Z &z = zs[r.below(zs.size())];
            Name n = below(r.chance(60) || z.recs.empty() ? z.origin : r.pick(z.recs).name, "*");
            n = below(n, label());
            if (under(z.origin, n) && length_ok(n) && free(z.recs, n))
                add(z.recs, rec(n, A, addr(A)));
        }
        if (r.chance(10)) {
            // a zone without a parent's role speaks of another's servers
            Z &z = zs[r.below(zs.size())], &c = zs[r.below(zs.size())];
            if (!under(z.origin, c.origin) && !c.origin.empty() && free(z.recs, c.origin)) {
                Name s = r.chance(60) && !c.servers.empty() ? r.pick(c.servers) : below(c.origin, "ns9");
                add(z.recs, rec(c.origin, NS, text(s)));
                if (r.chance(40))
                    add(z.recs, rec(s, A, addr(A)));
            }
        }
        if (r.chance(6)) {
            // a long chain of aliases, with an end or without
            std::vector<std::pair<size_t, Name>> at;
            int n = r.range(5, 22);
            size_t z = r.below(zs.size());
            for (int i = 0; i < n; i++) {
                Name x = below(zs[z].origin, "q" + std::to_string(i));
                if (length_ok(x))
                    at.push_back({z, x});
                if (r.chance(15))
                    z = r.below(zs.size());
            }
            for (size_t i = 0; i < at.size(); i++) {
                bool last = i + 1 == at.size();
                if (last && r.chance(40))
                    add(zs[at[i].first].recs, rec(at[i].second, A, addr(A)));
                else
                    add(zs[at[i].first].recs,
                        rec(at[i].second, CNAME, text(!last ? at[i + 1].second : r.chance(60) ? at[r.below(at.size())].second : target())));
            }
        }
        if (r.chance(p.cycles > 50 ? 20 : 6)) {
            // one DNAME used several times on a way, by names of different lengths
            Z &z = zs[r.below(zs.size())], &y = zs[r.below(zs.size())];
            Name d = below(z.origin, "u1"), e = below(r.chance(70) ? y.origin : z.origin, "u2");
            add(z.recs, rec(d, DNAME, text(e)));
            auto prefix = [&](Name n) {
                int k = r.range(1, 5);
                for (int i = 0; i < k; i++)
                    n = below(n, r.chance(80) ? "v" : "w");
                return n;
            };
            int k = r.range(1, 4);
            Name at = prefix(d);
            for (int i = 0; i < k; i++) {
                Name from(at);
                from.erase(from.begin(), from.begin() + (long)d.size());
                from.insert(from.begin(), e.begin(), e.end());
                at = prefix(d);
                Z &w = under(y.origin, from) ? y : z;
                if (under(w.origin, from) && length_ok(from) && length_ok(at))
                    add(w.recs, rec(from, CNAME, text(at)));
            }
        }
        if (r.chance(25)) {
            // records that share all but their type
            for (auto &z : zs)
                for (size_t i = 0, n = z.recs.size(); i < n; i++) {
                    Rec x = z.recs[i];
                    int t = twin(x.type);
                    if (t == x.type || t == NS || !r.chance(25))
                        continue;
                    x.type = t;
                    x.lay = r.next();
                    add(z.recs, x);
                }
        }
        if (use_dname && r.chance(30)) {
            // wildcards where DNAMEs lead
            for (auto &z : zs)
                for (size_t i = 0; i < z.recs.size(); i++)
                    if (z.recs[i].type == DNAME && r.chance(50)) {
                        Name n = name_of(z.recs[i].rdata);
                        Z *best = nullptr;
                        for (auto &o : zs)
                            if (under(o.origin, n) && (!best || o.origin.size() > best->origin.size()))
                                best = &o;
                        Name w = below(n, "*");
                        if (!best || n.empty() || n.back() == "*" || !length_ok(w) || !free(best->recs, n) || !free(best->recs, w))
                            continue;
                        bool any = false;
                        for (auto &o : best->recs)
                            any |= o.name == w;
                        int t = r.chance(60) ? A : r.chance(40) ? TXT : any ? MX : CNAME;
                        add(best->recs, rec(w, t, t == CNAME ? text(target()) : data(t)));
                    }
        }
        if (r.chance(10)) {
            // a server named like its zone
            Z &c = zs[r.below(zs.size())];
            if (!c.origin.empty() && free(c.recs, c.origin)) {
                if (r.chance(80))
                    add(c.recs, rec(c.origin, NS, text(c.origin)));
                if (r.chance(60))
                    add(c.recs, rec(c.origin, r.chance(80) ? A : AAAA, addr(A)));
                if (c.recs.back().type == AAAA)
                    c.recs.back().rdata = addr(AAAA);
                if (c.parent >= 0) {
                    Z &par = zs[(size_t)c.parent];
                    if (r.chance(80))
                        add(par.recs, rec(c.origin, NS, text(c.origin)));
                    if (r.chance(60))
                        add(par.recs, rec(c.origin, A, addr(A)));
                }
            }
        }
    }

    // The servers of a zone disagree about where a DNAME leads; each target has names of its own below the same label.
    Name fan_at;
    void dname_fan()
    {
        size_t at = r.below(zs.size());
        Z &z = zs[at];
        Name d = below(z.origin, "df");
        Name v = {label()};
        int n = r.range(2, 5);
        while ((int)z.servers.size() < n) {
            Name s = below(z.origin, "fs" + std::to_string(z.servers.size()));
            z.servers.push_back(s);
            std::string ip = addr(A);
            add(z.recs, rec(z.origin, NS, text(s)));
            add(z.recs, rec(s, A, ip));
            if (z.parent >= 0) {
                Z &par = zs[(size_t)z.parent];
                add(par.recs, rec(z.origin, NS, text(s)));
                add(par.recs, rec(s, A, ip));
            }
        }
        size_t other = r.below(zs.size());
        for (int i = 0; i < n; i++) {
            size_t to = r.chance(70) ? at : other;
            Name t = below(zs[to].origin, "g" + std::to_string(i));
            Name x = t;
            if (r.chance(85))
                x.insert(x.end(), v.begin(), v.end());
            z.fan.push_back(text(t));
            int k = r.range(0, 2);
            for (int q = 0; q < k; q++) {
                Name y = below(x, q ? (wild ? "*" : "o") : "n" + std::to_string(r.range(1, n)));
                int ty = r.chance(50) ? A : r.chance(50) ? TXT : CNAME;
                if (length_ok(y))
                    add(zs[to].recs, rec(y, ty, ty == CNAME ? text(target()) : data(ty)));
            }
            if (r.chance(30) && length_ok(x))
                add(zs[to].recs, rec(x, A, addr(A)));
        }
        add(z.recs, rec(d, DNAME, z.fan[0]));
        z.fan_owner = d;
        fan_at = d;
        if (r.chance(85))
            fan_at.insert(fan_at.end(), v.begin(), v.end());
    }

    // more of one thing than usual: counters that are too narrow, fixed buffers, limits on recursion
    int many_jobs = 0;
    void scale()
    {
        auto single = [](const std::vector<Rec> &recs, const Name &n) {
            for (auto &o : recs)
                if (o.name == n && (o.type == CNAME || o.type == DNAME || o.type == NS))
                    return false;
            return true;
        };
        size_t at = r.below(zs.size());
        Z &z = zs[at];
        switch (r.below(5)) {
        case 0: { // zones
            int n = r.range(257, 290);
            Name up = r.chance(70) ? z.origin : below(z.origin, "t");
            bool shared = r.chance(50);
            std::vector<Z> more;
            for (int i = 0; i < n; i++) {
                Z c;
                c.origin = below(up, "t" + std::to_string(i));
                c.parent = (int)at;
                Name s = shared && i % 4 ? z.servers[0] : below(c.origin, "ns");
                c.servers.push_back(s);
                c.recs.push_back(rec(c.origin, SOA, text(s) + " admin. 1 7200 3600 1209600 300"));
                add(c.recs, rec(c.origin, NS, text(s)));
                if (under(c.origin, s))
                    add(c.recs, rec(s, A, addr(A)));
                if (i % 3 == 0)
                    add(c.recs, rec(below(c.origin, label()), r.chance(50) ? A : TXT, "10.0.0.9"));
                if (!r.chance(3)) {
                    add(z.recs, rec(c.origin, NS, text(s)));
                    if (under(c.origin, s))
                        add(z.recs, rec(s, A, c.recs[2].rdata));
                }
                more.push_back(c);
            }
            zs.insert(zs.end(), more.begin(), more.end());
            break;
        }
        case 1: { // records of a name
            Name n = r.chance(50) ? below(z.origin, "big") : r.pick(z.recs).name;
            if (!single(z.recs, n) && n != z.origin)
                n = below(z.origin, "big");
            int k = r.range(257, 300), t = r.chance(40) ? A : r.chance(50) ? TXT : MX;
            for (int i = 0; i < k; i++)
                add(z.recs, rec(n, t, t == A ? "10.0." + std::to_string(i / 200) + "." + std::to_string(i % 200) : t == TXT ? "\"k" + std::to_string(i) + "\"" : std::to_string(i) + " " + text(z.origin)));
            pool.push_back(n);
            break;
        }
        case 2: { // data of a record
            int k = r.chance(25) ? r.range(40, 200) : r.range(1, 3); // up to 600 kB
            for (int i = 0; i < k; i++) {
                Name n = k > 3 && i ? below(z.origin, "l" + std::to_string(i)) : r.chance(60) ? below(z.origin, "long") : r.pick(z.recs).name;
                if (!single(z.recs, n) && n != z.origin)
                    n = below(z.origin, "long");
                std::string t;
                int m = r.range(2, 24);
                for (int q = 0; q < m; q++)
                    t += (q ? " \"" : "\"") + std::string((size_t)r.range(100, 255), (char)('a' + r.below(3))) + "\"";
                add(z.recs, rec(n, TXT, t));
            }
            break;
        }
        case 3: // jobs
            many_jobs = r.range(257, 290);
            break;
        case 4: { // labels of a name
            int k = r.range(1, 3);
            Name n = z.origin;
            int len = (int)text(n).size(), depth = r.range(40, 125);
            while ((int)n.size() < depth && len + 2 <= 253) {
                n = below(n, r.chance(80) ? "k" : "j");
                len += 2;
            }
            for (int i = 0; i < k && n.size() > z.origin.size(); i++) {
                if (length_ok(n)) {
                    int c = r.range(0, 3);
                    add(z.recs, c == 0 ? rec(n, CNAME, text(target())) : c == 1 && use_dname ? rec(n, DNAME, text(target())) : c == 2 ? rec(below(z.origin, "cn"), CNAME, text(n)) : rec(n, A, addr(A)));
                    pool.push_back(n);
                }
                n.resize((size_t)std::max((int)z.origin.size() + 1, (int)n.size() - r.range(1, 30)));
            }
            break;
        }
        }
    }

    void illegal(std::vector<Rec> &recs, const Name &origin)
    {
        int n = r.range(1, 4);
        for (int i = 0; i < n && recs.size() > 1; i++) {
            size_t at = 1 + r.below(recs.size());
            Rec x = recs[r.below(recs.size())];
            x.lay = r.next();
            switch (r.below(9)) {
            case 0: // duplicate
            case 1:
                break;
            case 2: { // second CNAME or DNAME
                bool found = false;
                for (auto &o : recs)
                    if ((o.type == CNAME || o.type == DNAME) && r.chance(60)) {
                        x = o;
                        x.lay = r.next();
                        x.rdata = text(target());
                        found = true;
                        break;
                    }
                if (!found)
                    continue;
                break;
            }
            case 3: { // other data beside a CNAME
                bool found = false;
                for (auto &o : recs)
                    if (o.type == CNAME && r.chance(70)) {
                        x = rec(o.name, r.chance(50) ? A : TXT, "");
                        x.rdata = data(x.type);
                        found = true;
                        break;
                    }
                if (!found)
                    continue;
                break;
            }
            case 4: // CNAME beside other data
                if (x.type == CNAME || x.name == origin)
                    continue;
                x = rec(x.name, CNAME, text(target()));
                break;
            case 5: // outside the zone
                x = rec(r.chance(50) ? name_of("www.other.") : Name(origin.begin(), origin.end() - (origin.empty() ? 0 : 1)), A,
                        addr(A));
                if (under(origin, x.name))
                    continue;
                break;
            case 6: // too long a label
                x = rec(below(origin, std::string((size_t)r.range(64, 70), 'l')), A, addr(A));
                break;
            case 7: { // too long a name
                Name nm = origin;
                while (length_ok(nm))
                    nm = below(nm, std::string((size_t)r.range(50, 63), 'd'));
                x = rec(nm, A, addr(A));
                break;
            }
            case 8: { // too long a target
                Name nm = below(name_of("t."), std::string((size_t)r.range(64, 66), 't'));
                if (r.chance(50)) {
                    nm = name_of("t.");
                    while (length_ok(nm))
                        nm = below(nm, std::string((size_t)r.range(50, 63), 't'));
                }
                x = rec(below(origin, label()), r.chance(50) ? NS : r.chance(50) ? CNAME : DNAME, text(nm));
                break;
            }
            }
            // seldom a record differs from another in nothing but its TTL
            bool bad = false, ttls = r.chance(15);
            if (ttls)
                x.ttl = ttl();
            for (auto &o : recs)
                if (!ttls && o.name == x.name && o.type == x.type && o.rdata == x.rdata)
                    x.ttl = o.ttl;
            if (x.type == SOA && x.name != origin)
                bad = true;
            if (!bad)
                recs.insert(recs.begin() + (long)std::min(at, recs.size()), x);
        }
    }

    void emit()
    {
        int f = 0;
        for (auto &z : zs) {
            for (size_t k = 0; k < z.servers.size(); k++) {
                if (k > 0 && lame && r.chance(12))
                    continue; // this server does not have it
                Zone o;
                o.file = "z" + std::to_string(++f) + ".txt";
                o.ns = text(z.servers[k]);
                if (r.chance(15))
                    std::transform(o.ns.begin(), o.ns.end(), o.ns.begin(), ::toupper);
                o.origin = z.origin;
                o.meta_origin = r.chance(30);
                o.recs = z.recs;
                if (!z.fan.empty())
                    for (auto &x : o.recs)
                        if (x.type == DNAME && x.name == z.fan_owner)
                            x.rdata = z.fan[k % z.fan.size()];
                if (k > 0 && inconsistent)
                    mutate(o.recs, z.origin);
                if (k > 0 && p.cuts && inconsistent && r.chance(40))
                    disagree(o.recs, z.origin);
                if (r.chance(30) && o.recs.size() > 2) {
                    // any order behind the SOA
                    for (size_t i = o.recs.size() - 1; i > 1; i--)
                        std::swap(o.recs[i], o.recs[1 + r.below(i)]);
                }
                if (p.illegal && r.chance(60))
                    illegal(o.recs, z.origin);
                o.lay = r.next();
                o.style = p.layout ? (uint32_t)r.next() & (uint32_t)r.next() & ST_ALL : r.chance(50) ? (uint32_t)r.next() & ST_ALL : 0;
                if (p.layout && r.chance(40))
                    o.style |= (uint32_t)r.next() & ST_ALL;
                s.zones.push_back(o);
            }
        }
        // any order of files
        for (size_t i = s.zones.size(); i > 1; i--)
            if (r.chance(50))
                std::swap(s.zones[i - 1], s.zones[r.below(i)]);
        std::set<std::string> tops;
        for (auto &z : zs)
            if (z.parent < 0)
                for (auto &sv : z.servers)
                    if (tops.size() < (p.fan ? 40 : 3))
                        tops.insert(text(sv));
        for (auto &t : tops)
            s.top.push_back(t);
        if (s.top.size() > 1 && r.chance(30))
            s.top.pop_back();
        if (r.chance(8) && !servers.empty()) {
            std::string t = text(r.pick(servers));
            if (std::find(s.top.begin(), s.top.end(), t) == s.top.end())
                s.top.push_back(t);
        }
        if (r.chance(5))
            s.top.push_back("nowhere.ext.net.");
        bool served = false;
        for (auto &z : s.zones) {
            std::string ns = z.ns;
            std::transform(ns.begin(), ns.end(), ns.begin(), ::tolower);
            served |= std::find(s.top.begin(), s.top.end(), ns) != s.top.end();
        }
        if (!served) {
            std::string ns = s.zones[0].ns;
            std::transform(ns.begin(), ns.end(), ns.begin(), ::tolower);
            s.top.push_back(ns);
        }
    }

    // the same data under another type
    int twin(int type)
    {
        switch (type) {
        case TXT:
            return SPF;
        case SPF:
            return TXT;
        case NS:
            return PTR;
        case PTR:
            return r.chance(50) ? NS : PTR;
        default:
            return type;
        }
    }

    void mutate(std::vector<Rec> &recs, const Name &origin)
    {
        if (r.chance(20)) {
            for (auto &x : recs)
                if (twin(x.type) != x.type && r.chance(30)) {
                    int t = twin(x.type);
                    bool dup = t == NS && !x.name.empty() && x.name.back() == "*";
                    for (auto &o : recs)
                        dup |= o.name == x.name && o.type == t && o.rdata == x.rdata;
                    if (!dup && !(x.type == NS && x.name == origin && r.chance(80)))
                        x.type = t;
                }
        }
        if (r.chance(25))
            for (auto &x : recs)
                if (x.type == DNAME && r.chance(60))
                    x.rdata = text(r.chance(25) ? below(x.name, label()) : target());
        int n = r.range(0, 3);
        for (int i = 0; i < n && recs.size() > 2; i++) {
            size_t k = 1 + r.below(recs.size() - 1);
            Rec &x = recs[k];
            switch (r.below(5)) {
            case 0:
                recs.erase(recs.begin() + (long)k);
                break;
            case 1:
                x.ttl = ttl(); // not a difference
                break;
            case 2:
                if (x.type == A || x.type == AAAA || x.type == MX || x.type == TXT) {
                    std::string d = data(x.type);
                    bool dup = false;
                    for (auto &o : recs)
                        dup |= o.name == x.name && o.type == x.type && o.rdata == d;
                    if (!dup)
                        x.rdata = d;
                } else if (x.type == CNAME || x.type == DNAME) {
                    x.rdata = text(target());
                }
                break;
            case 3:
                if (x.type != CNAME) {
                    int t = r.chance(70) ? A : NS;
                    Name at = t == NS && r.chance(70) ? origin : x.name;
                    bool star = at.size() && at.back() == "*";
                    if (!(t == NS && star))
                        add(recs, rec(at, t, t == A ? addr(A) : text(servers.empty() ? target() : r.pick(servers))));
                }
                break;
            case 4:
                if (x.type == CNAME && !(x.name == origin)) {
                    x.type = A;
                    x.rdata = addr(A);
                }
                break;
            }
        }
    }

    // about name servers or their addresses
    void disagree(std::vector<Rec> &recs, const Name &origin)
    {
        std::vector<size_t> ns, ip;
        for (size_t i = 1; i < recs.size(); i++)
            if (recs[i].type == NS)
                ns.push_back(i);
            else if (recs[i].type == A || recs[i].type == AAAA)
                ip.push_back(i);
        switch (r.below(4)) {
        case 0:
            if (ns.size() > 1)
                recs.erase(recs.begin() + (long)r.pick(ns));
            break;
        case 1:
            if (!ip.empty())
                recs.erase(recs.begin() + (long)r.pick(ip));
            break;
        case 2:
            add(recs, rec(ns.empty() ? origin : recs[r.pick(ns)].name, NS, text(servers.empty() ? target() : r.pick(servers))));
            break;
        case 3:
            if (!ip.empty()) {
                size_t i = r.pick(ip);
                int t = r.chance(60) ? A : AAAA;
                add(recs, rec(recs[i].name, t, addr(t)));
            }
            break;
        }
    }

    std::vector<std::string> types(bool one)
    {
        static const std::vector<std::string> t = {"A",   "A",   "A",   "NS",  "MX",  "CNAME", "TXT",
                                                   "AAAA", "DNAME", "SOA", "PTR", "SRV",   "SPF"};
        std::set<std::string> o;
        if (!one && r.chance(10))
            return r.chance(70) ? std::vector<std::string>{"SPF", "TXT"} : std::vector<std::string>{"NS", "PTR"};
        int n = one ? 1 : r.chance(55) ? 1 : r.range(2, 3);
        for (int i = 0; i < n; i++)
            o.insert(r.pick(t));
        return {o.begin(), o.end()};
    }

    std::string domain_text(const Name &n)
    {
        std::string t = text(n);
        if (r.chance(12))
            std::transform(t.begin(), t.end(), t.begin(), ::toupper);
        return t;
    }

    Name any_name()
    {
        Name n = r.chance(40) ? r.pick(zs).origin : r.pick(pool);
        return n;
    }

    Prop prop(const std::string &name)
    {
        Prop q;
        q.name = name;
        if (name == "Hops")
            q.number = r.range(0, 3);
        else if (name == "Rewrites")
            q.number = r.range(0, 2);
        else if (name == "QueryRewrite" || name == "NameserverContact") {
            int n = r.range(1, 2);
            for (int i = 0; i < n; i++)
                q.values.push_back(domain_text(r.chance(70) ? r.pick(zs).origin : any_name()));
        } else if (name == "AllAliases") {
            int n = r.range(1, 3);
            for (int i = 0; i < n; i++) {
                // prefer targets of rewrites
                Name v = any_name();
                for (int k = 0; k < 6; k++) {
                    auto &z = r.pick(zs);
                    if (z.recs.empty())
                        continue;
                    auto &x = r.pick(z.recs);
                    if (x.type == CNAME || x.type == DNAME) {
                        v = name_of(x.rdata);
                        if (x.type == DNAME && r.chance(50))
                            v = below(v, label());
                        break;
                    }
                }
                q.values.push_back(domain_text(v));
            }
        } else if (name == "ResponseReturned" || name == "ResponseConsistency" || name == "ZeroTTL") {
            q.has_types = true;
            q.types = types(false);
        } else if (name == "ResponseValue") {
            q.has_types = true;
            q.types = types(r.chance(75));
            for (int k = 0; k < 10 && q.values.empty(); k++) {
                auto &z = r.pick(zs);
                auto &x = r.pick(z.recs);
                if (x.type < NTYPES && x.rdata.find('\xe9') == std::string::npos && (kTypeName[x.type] == q.types[0] || k > 6))
                    q.values.push_back(x.rdata);
            }
            if (q.values.empty())
                q.values.push_back("10.0.0.1");
            if (r.chance(15))
                q.values.push_back("10.0.0.2");
            if (r.chance(12))
                for (auto &v : q.values)
                    std::transform(v.begin(), v.end(), v.begin(), ::toupper);
        }
        return q;
    }

    Job job()
    {
        Job j;
        Name d;
        int c = r.range(0, 99);
        if (c < 50)
            d = r.pick(zs).origin;
        else if (c < 75)
            d = any_name();
        else if (c < 83)
            d = below(any_name(), label());
        else if (c < 86)
            d = name_of("not.there.");
        else if (c < 92)
            d = {};
        else if (c < 96) {
            // through a DNAME
            for (auto &z : zs)
                for (auto &x : z.recs)
                    if (x.type == DNAME) {
                        d = below(x.name, label());
                        for (auto &n : pool)
                            if (n.size() > name_of(x.rdata).size() && under(name_of(x.rdata), n) && r.chance(40)) {
                                Name t = name_of(x.rdata);
                                d = x.name;
                                d.insert(d.end(), n.begin() + (long)t.size(), n.end());
                                break;
                            }
                    }
        } else if (c < 98 || !p.deep) {
            d = zs[0].origin;
        } else {
            d = any_name();
            while (length_ok(d))
                d = below(d, std::string((size_t)r.range(40, 66), 'q'));
        }
        if (r.chance(3)) {
            // too long, or just about
            d = any_name();
            size_t want = (size_t)r.range(251, 257), len = 0;
            if (r.chance(40))
                want += 60;
            for (auto &l : d)
                len += l.size() + 1;
            while (len < want) {
                size_t n = std::min<size_t>(want - len - 1, r.chance(3) ? 64 : 63);
                if (want - len - n - 1 == 1)
                    n--;
                d = below(d, std::string(std::max<size_t>(n, 1), 'q'));
                len += std::max<size_t>(n, 1) + 1;
            }
        }
        j.domain = domain_text(d);
        j.sub = r.chance(82);
        int n = p.plain_jobs ? r.range(1, 2) : r.range(1, 4);
        for (int i = 0; i < n; i++)
            j.props.push_back(prop(r.pick(p.props)));
        return j;
    }

    Scenario run()
    {
        labels = {"a", "b", "c", "www"};
        static const std::vector<std::string> more = {"mail", "x1",  "mx",    "txt", "ns",  "a-b", "_sip", "in",
                                                      "3600", "cname", "ptr", "d",   "e", "a\\.b", "soa", "ch"};
        int k = r.range(0, 3);
        for (int i = 0; i < k; i++)
            labels.push_back(r.pick(more));
        eight = Rng(mix64(start, 0x8b)).chance(10);
        if (eight)
            labels.push_back("m\xc3\xbc");
        escapes = Rng(mix64(start, 0x8c)).chance(12);
        if (escapes)
            labels.insert(labels.end(), {"u\\ v", "p\\(q", "s\\;t", "n\\\"m", "e\\\\", "f\\."});
        rewrite_heavy = r.chance(p.cycles);
        wild = r.chance(40);
        use_dname = r.chance(50);
        unglued = r.chance(30);
        inconsistent = r.chance(55);
        lame = r.chance(35);
        many_types = r.chance(35);
        zero_ttl = r.chance(30);
        make_zones();
        make_servers();
        for (auto &z : zs)
            fill(z);
        addresses();
        delegate();
        Rng keep = r;
        r = Rng(mix64(start, 0x0dd));
        oddities();
        r = Rng(mix64(start, 0x5ca1e));
        if (r.chance(p.scale))
            scale();
        if (p.scale && r.chance(4))
            dname_fan();
        r = keep;
        emit();
        if (r.below(100) < (uint64_t)p.default_job) {
            s.default_job = true;
        } else {
            int n = r.range(1, p.max_jobs);
            for (int i = 0; i < n; i++)
                s.jobs.push_back(job());
            if (p.repeat) {
                int m = r.range(1, 2);
                for (int i = 0; i < m; i++)
                    s.jobs.insert(s.jobs.begin() + (long)r.below(s.jobs.size() + 1), r.pick(s.jobs));
            }
        }
        if (!fan_at.empty() && !s.jobs.empty()) {
            s.jobs[0].domain = domain_text(fan_at);
            s.jobs[0].sub = true;
        }
        for (size_t i = 0, n = s.jobs.size(); n && (int)s.jobs.size() < many_jobs; i++) {
            // a few that are large, and many for single names
            Job j = s.jobs[i % n];
            if (i >= 4) {
                j.sub = false;
                if (i % 3 == 0)
                    j.domain = domain_text(any_name());
            }
            s.jobs.push_back(j);
        }
        s.stats = true;
        s.lint = p.illegal && r.chance(50);
        if (r.chance(10))
            s.log = true;
        if (s.log && r.chance(50))
            s.verbose = true;
        return s;
    }
};
} // namespace

Scenario generate(uint64_t seed, const Profile &p)
{
    Gen g(seed, p);
    return g.run();
}

bool well_formed(const Scenario &s)
{
    auto low = [](std::string x) {
        std::transform(x.begin(), x.end(), x.begin(), ::tolower);
        return x;
    };
    for (auto &t : s.top)
        for (auto &z : s.zones)
            if (low(z.ns) == low(t))
                return true;
    return false;
}
